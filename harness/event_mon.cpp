// Exactly-once / on-time monitor of the event scheduler: a random history of schedule, cancel and clock
// steps (also issued from inside callbacks) against a flat list of pending deadlines.
#include "vh.hpp"
extern "C" {
#include "device.h"
#include "event.h"
#include "logger.h"
uint64_t step_count;
}
using namespace vh;
struct Pend { int id; long due; int dev, fn; };
static std::vector<Pend> pend; static long now_; static struct _device devs[5]; static int nextid; static long fired, cancelled, nested, immediate;
static Rng *R; static int depth, budget; static bool in_add; static int expect_imm; static bool bad; static std::string hist;
static void fail(const std::string &k, const std::string &d) { if (!bad) violation("event:" + k, d + " history " + hist.substr(hist.size() > 700 ? hist.size() - 700 : 0)); bad = true; }
static void ops(int n);
static void deliver(int fn, struct _device *dev, void *arg, int iarg) {
    int d = (int)(dev - devs);
    if (expect_imm == iarg) { expect_imm = -1; immediate++; if (arg != (void *)&devs[iarg % 5].addr) fail("argument", fmt("event %d delivered with another argument", iarg)); return; }
    hist += fmt(" !%d@%ld", iarg, now_);
    for (size_t i = 0; i < pend.size(); i++) if (pend[i].id == iarg) {
        if (pend[i].due != now_) fail("wrong-time", fmt("event %d due at %ld delivered at %ld", iarg, pend[i].due, now_));
        if (pend[i].dev != d || pend[i].fn != fn || arg != (void *)&devs[iarg % 5].addr) fail("argument", fmt("event %d delivered to another device, routine or argument", iarg));
        pend.erase(pend.begin() + i); fired++;
        if (budget > 0 && R->chance(35)) { nested++; depth++; ops(R->range(1, 3)); depth--; }
        return;
    }
    fail("unexpected", fmt("event %d delivered at %ld although it is not pending (already delivered or cancelled)", iarg, now_));
}
static void f0(struct _device *d, void *a, int i) { deliver(0, d, a, i); }
static void f1(struct _device *d, void *a, int i) { deliver(1, d, a, i); }
static void f2(struct _device *d, void *a, int i) { deliver(2, d, a, i); }
static _callback fns[3] = { &f0, &f1, &f2 };
static int mode_ties;
static void ops(int n) {
    while (n-- > 0 && budget > 0) {
        budget--;
        int d = R->below(5), f = R->below(3);
        if (R->chance(60)) {
            int t = R->one_in(12) ? 0 : R->chance(50) ? R->range(1, 6) : R->range(1, 60); int id = nextid++;
            if (!mode_ties) { bool tie = false; for (auto &p : pend) if (p.due == now_ + t && p.dev == d && p.fn == f) tie = true; if (tie && t) continue; }
            hist += fmt(" +%d(%d,%d,%d)", id, d, f, t);
            int save = expect_imm;
            if (t) pend.push_back({ id, now_ + t, d, f }); else expect_imm = id;
            int rc = add_event(&devs[d], fns[f], t, (void *)&devs[id % 5].addr, id);
            if (rc) fail("add-refused", "schedule reported failure");
            if (!t && expect_imm == id) { fail("immediate", "an event with no delay was not delivered at once"); }
            expect_imm = save; tally("scheduled");
        } else if (!mode_ties) {
            size_t b = pend.size();
            for (size_t i = 0; i < pend.size(); i++) if (pend[i].dev == d && pend[i].fn == f && (b == pend.size() || pend[i].due < pend[b].due)) b = i;
            hist += fmt(" -%d(%d,%d)", b < pend.size() ? pend[b].id : -1, d, f);
            if (b < pend.size()) { pend.erase(pend.begin() + b); cancelled++; } else tally("cancel_nothing");
            cancel_event(&devs[d], fns[f]);
        }
    }
}
int main(int argc, char **argv) {
    log_level = 0; init(argc, argv);
    cases([&](uint64_t ci, Rng &r) {
        R = &r; init_event(); pend.clear(); now_ = 0; nextid = 0; bad = false; hist.clear(); expect_imm = -1; depth = 0;
        mode_ties = r.one_in(4); fired = cancelled = nested = immediate = 0; uint64_t sig = 0;
        budget = r.range(5, 120); int maxp = 0; long steps = 0;
        while ((budget > 0 || !pend.empty()) && !bad && steps < 5000) {
            if (budget > 0 && r.chance(45)) ops(r.range(1, 4));
            now_++; steps++; step_count++; advance();
            for (auto &p : pend) if (p.due <= now_) fail("missed", fmt("event %d due at %ld not delivered by %ld", p.id, p.due, now_));
            maxp = std::max(maxp, (int)pend.size()); sig = hash_bytes(&maxp, 4, sig + pend.size());
        }
        for (int i = 0; i < 100 && !bad; i++) { now_++; advance(); }
        tally("delivered", fired); tally("cancelled", cancelled); tally("issued_inside_callbacks", nested); tally("immediate", immediate); tally("clock_steps", steps);
        seen("histories", hist); seen("max_pending", (uint64_t)maxp);
        if (ci % 499 == 0) sample(hist.substr(0, 300));
    });
    return finish();
}
