/* DTLS anti-replay window: induction over arbitrary histories, for an arbitrary record number T. */
#include "v.h"
#include "hitls_build.h"
#include "rec_anti_replay.h"
#define SN_MAX 0xFFFFFFFFFFFFull

/* invariant tying the window to the ghost fact "T was accepted before" */
static bool Inv(const RecSlidWindow *w, uint64_t T, bool accepted, bool any)
{
    if (!any) {
        return w->top == 0 && w->window == 0 && !accepted;
    }
    if (w->top > SN_MAX || T > SN_MAX) {
        return false;
    }
    if (T > w->top) {
        return !accepted;
    }
    if (w->top == T && !accepted) {
        /* the top is always an accepted number */
        return T == 0 && (w->window & 1) == 0;
    }
    if (w->top - T >= 64) {
        return true;
    }
    return (((w->window >> (w->top - T)) & 1) != 0) == accepted;
}
#ifdef H_STEP
void harness(void)
{
    RecSlidWindow w;
    w.top = nd64();
    w.window = nd64();
    uint64_t T = nd64();
    bool accepted = ndbool();
    bool any = ndbool();
    V_ASSUME(T <= SN_MAX);
    V_ASSUME(Inv(&w, T, accepted, any));
    uint64_t s = nd64();
    V_ASSUME(s <= SN_MAX);
    uint64_t top0 = w.top;
    RecSlidWindow w0 = w;
    bool replay = RecAntiReplayCheck(&w, s);
    V_ASSERT(w.top == w0.top && w.window == w0.window, "checking a record number does not change the window");
    if (s == T && accepted) {
        V_ASSERT(replay, "a record number accepted before is reported as a replay");
        V_WITNESS("replay of accepted number");
    }
    if (s == T && !accepted && (T > top0 || top0 - T < 64)) {
        V_ASSERT(!replay, "a fresh record number inside or ahead of the 64-entry window is not reported as a replay");
        V_WITNESS("fresh number");
    }
    if (s <= top0 && top0 - s >= 64) {
        V_ASSERT(replay, "a record number older than the window is rejected");
    }
    if (!replay) {
        RecAntiReplayUpdate(&w, s);
        accepted = accepted || s == T;
        any = true;
        V_ASSERT(w.top == (s > top0 ? s : top0), "the window top is the highest accepted number");
        V_WITNESS("accepted");
    }
    V_ASSERT(Inv(&w, T, accepted, any), "the window keeps remembering exactly the accepted numbers");
}
#endif
#ifdef H_HIST
void harness(void)
{
    RecSlidWindow w;
    w.top = nd64();
    w.window = nd64();
    RecAntiReplayReset(&w);
    uint64_t T = nd64();
    V_ASSUME(T <= SN_MAX);
    bool accepted = false;
    V_ASSERT(!RecAntiReplayCheck(&w, T), "after a reset nothing is a replay");
    for (uint32_t i = 0; i < N; i++) {
        uint64_t s = nd64();
        V_ASSUME(s <= SN_MAX);
        if (!RecAntiReplayCheck(&w, s)) {
            RecAntiReplayUpdate(&w, s);
            if (s == T) {
                V_ASSERT(!accepted, "no record number is accepted twice");
                accepted = true;
                V_WITNESS("accepted once");
            }
        }
    }
}
#endif
