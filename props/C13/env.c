/* C13 environment: every operation that is not part of the state machine either succeeds or fails, without saying which.
 * No prototypes: the parameters do not matter. */
#include "v.h"
extern uint32_t g_envfail;
static int32_t res(void) { if (ndbool()) { g_envfail++; return 0x7fff0001; } return 0; }
#define R(f) int32_t f() { return res(); }
#define N(f) int32_t f() { return 0; }
#define B(f) bool f() { return false; }
#define V(f) void f() { }
#include <stdbool.h>
R(ClientCheckNegotiatedAlpn) R(HITLS_SESS_SetSessionId) R(SESS_SetPeerCert) R(REC_RetransmitListFlush) R(VERIFY_AppendDtlsRaw)
R(HS_ProcessServerKxMsgIdentityHint) R(HS_KeyEstablish) R(ProcessCertCallback) R(REC_FlightTransmit)
R(HS_GenerateMasterSecret) R(SESS_SetTicket) R(HS_ProcessServerKxMsgEcdhe) R(HS_ProcessServerKxMsgDhe) R(HITLS_SESS_SetSessionIdCtx)
R(HS_ProcessClientKxMsgDhe) R(HS_ProcessClientKxMsgSm2) R(HS_ProcessClientKxMsgRsa) R(HS_ProcessClientKxMsgEcdhe)
R(HITLS_SESS_SetHaveExtMasterSecret) R(HS_TLS13DeriveResumptionMasterSecret) R(SESSMGR_GernerateSessionId)
R(HS_TLS13CalcServerFinishProcessSecret) R(HITLS_SESS_SetMasterKey) R(HS_SwitchTrafficKey) R(HS_TLS13UpdateTrafficSecret)
R(DTLS_CID_ProcessPeerNewConnectionId) R(HS_TLS13DeriveResumePsk) R(VERIFY_Append) R(VERIFY_CalcVerifyData) R(VERIFY_Tls13CalcVerifyData)
R(SESS_SetHostName) R(HITLS_DtlsProcessTimeout)
N(HS_SelectCertByInfo) N(HITLS_SESS_SetProtocolVersion) N(HITLS_SESS_SetCipherSuite) uint8_t CFG_GetCertTypeByCipherSuite() { return 0; } N(REC_RecOutBufReSet) uint64_t SESSMGR_GetTimeout() { return 0; }
N(SESSMGR_GetCacheMode) N(REC_GetUnexpectedMsgType) B(QUIC_TLS_IsMode) B(BSL_UIO_GetUioChainTransportType) B(REC_HasBufferedHsData)
B(REC_RetransmitIsEmpty) B(IsHsSendState)
V(SESSMGR_InsertSession) N(HITLS_SESS_SetTimeout) V(SAL_CRYPT_DigestFree) V(SESSMGR_ClearTimeout) V(REC_Dtls13AckListClear)
V(HITLS_SESS_Free) V(RecTryFreeRecBuf) V(HS_StopTimer) V(INDICATOR_StatusIndicate) V(INDICATOR_MessageIndicate)
N(SESS_SetTicketAgeAdd) V(REC_RetransmitListClean) V(REC_RetransmitListRemove) V(SAL_CERT_PairFree) N(SESS_SetStartTime) V(HITLS_SESS_UpRef)
V(CleanClientHello) V(CleanNewSessionTicket) V(CleanClientKeyExchange) V(CleanHelloVerifyRequest) V(CleanServerHello) V(CleanCertificate)
V(CleanEncryptedExtensions) V(CleanCertificateRequest) V(CleanServerKeyExchange) V(SAL_CERT_KeyFree)
