// C10 and C11: every operation under a failing random source, failing allocations and failing library calls.
#include "../ops.h"
#include "../der.h"
namespace {
OpArgs args(const Op &o, size_t at, uint64_t seed) { OpArgs a; a.seed = mix64(seed, o.arg(at + 4)); for (int i = 0; i < 4; i++) a.v[i] = (unsigned)o.arg(at + i); return a; }
void reseed(uint64_t s) { sim::rnd = sim::RandState(); sim::rnd.prng.reseed(mix64(s, 0x0b5e55ed)); }
struct Base { bool ok; Bytes out; uint64_t points, draws; };
struct Guard { ~Guard() { sim::Faults::disarm(); sim::rnd.fail_from = -1; } };
std::string where() { return !sim::al.last.empty() ? "allocation at " + sim::al.last : sim::dep.last; }
void gen11(Rng &r, Plan &p, bool th) {
    int n = 1 + r.below(th ? 6 : 3);
    for (int i = 0; i < n; i++) {
        std::vector<long long> a{ (long long)pick_op(r.next(), false) };
        for (int j = 0; j < 4; j++) a.push_back(r.below(1 << 20));
        a.push_back(r.next() >> 40);
        a.push_back(1 + r.below(3));                    // kind of fault
        a.push_back(r.chance(1, 3) ? 1 + r.below(4) : 1); // how many consecutive ones
        a.push_back(r.below(8));                        // bit 0: retry on the same objects, bit 1: cold, bit 2: everything later fails
        a.push_back(r.next() >> 40);                    // where
        a.push_back(3 + r.below(th ? 20 : 8));          // attempts
        p.add("fault", a);
    }
}
void exec11(const Plan &p, Ctx &c) {
    bool first = true;
    for (auto &o : p.ops) {
        Guard gd; OpObj x; OpArgs a = args(o, 1, p.seed); int op = o.mod(0, n_eng_ops); const EngOp &e = eng_ops[op];
        int kind = 1 + o.mod(6, 3), cnt = 1 + o.mod(7, 4), mode = o.mod(8, 8), reps = std::min<uint64_t>(o.mod(10, 64), 40); uint64_t s = mix64(a.seed, 5);
        std::string nm = e.name; Bytes out;
        c.op(("prepare_" + nm).c_str()); op_material(op, a);
        bool cold = (mode & 2) && first; first = false;
        if (cold) { // the very first use of the algorithm meets the fault
            c.op(("cold_" + nm).c_str()); reseed(s); sim::Faults::arm(kind, o.arg(9) % 60, cnt);
            bool ok = e.act(x, a, out); sim::Faults::disarm(); uint64_t f = sim::Faults::fired(); std::string w = where(); sim::err_text();
            if (f) c.count("fault.first_use");
            Bytes o2; x.release(); reseed(s); bool ok2 = e.act(x, a, o2); sim::err_text();
            if (ok && (!ok2 || o2 != out)) c.violate("wrong-result", "%s: first use with %s failing reported a result that differs from the undisturbed one", e.name, w.c_str());
            x.release();
        }
        Base b{}; out.clear();
        c.op(("undisturbed_" + nm).c_str());
        for (int i = 0; i < 3; i++) {
            x.release(); out.clear(); reseed(s); if (i == 2) sim::Faults::arm(kind, -1, 0);
            bool ok = e.act(x, a, out); sim::Faults::disarm(); std::string er = sim::err_text();
            if (!ok) out.clear();
            if (i && (ok != b.ok || out != b.out)) c.violate("not-repeatable", "%s: the same operation gave a different result the second time: %s", e.name, er.c_str());
            b.ok = ok; b.out = out; b.points = sim::Faults::points();
        }
        x.release();
        if (!b.ok && c.verbose) c.log("%s is refused undisturbed", e.name);
        c.count(b.ok ? "undisturbed_ok" : "undisturbed_refused"); c.count(((b.ok ? "ok." : "refused.") + nm).c_str()); c.mixsig(nm); for (int i = 0; i < 4; i++) c.mixsig(a.v[i] % 12);
        c.logb(e.name, b.out);
        if (!b.points) { c.count("no_fault_points"); continue; }
        for (int i = 0; i < reps; i++) {
            uint64_t pos = (uint64_t)(o.arg(9) + i * 0x9e37) % b.points;
            sim::track_begin(); reseed(s); out.clear();
            c.op(("faulty_" + nm).c_str());
            sim::Faults::arm(kind, pos, (mode & 4) ? 1000000 : cnt);
            bool ok = e.act(x, a, out); sim::Faults::disarm();
            uint64_t f = sim::Faults::fired(); std::string w = where(); bool isal = sim::al.failed; std::string er = sim::err_text();
            if (f) { c.count(isal ? "fault.allocation" : "fault.library_call"); c.mixsig(pos * 8 + kind); c.nontrivial = true; }
            c.log("%s fault kind %d at %llu of %llu: %d (%s)", e.name, kind, (unsigned long long)pos, (unsigned long long)b.points, ok, w.c_str());
            if (ok && (!b.ok || out != b.out)) { std::string at; for (size_t j = 0; j < out.size() && j < b.out.size(); j++) if (out[j] != b.out[j]) { at = strf("first difference at byte %zu", j); break; }
                c.violate("wrong-result", "%s(%u,%u,%u,%u): %s failed, success was reported with a wrong result (%zu bytes, %zu undisturbed; %s)", e.name, a.v[0], a.v[1], a.v[2], a.v[3], w.c_str(), out.size(), b.out.size(), at.c_str()); }
            c.count(ok ? "survived" : "reported");
            if (!ok && (mode & 1)) {
                c.op(("same_objects_" + nm).c_str()); reseed(s); out.clear(); x.reused = true;
                bool k2 = e.act(x, a, out); er = sim::err_text();
                if (k2 != b.ok || (k2 && out != b.out && nm != "transport")) c.violate("retry-failed", "%s(%u,%u,%u,%u): after %s failed, the same objects gave %s: %s", e.name, a.v[0], a.v[1], a.v[2], a.v[3], w.c_str(), k2 ? "a wrong result" : "failure", er.c_str());
                c.count("retried_same_objects");
            }
            c.op(("release_" + nm).c_str()); x.release(); sim::err_text();
            std::string l; if (sim::track_live(&l)) c.violate("leak", "%s(%u,%u,%u,%u): after %s failed, still allocated with everything released: %s", e.name, a.v[0], a.v[1], a.v[2], a.v[3], w.c_str(), l.c_str());
            sim::track_end();
        }
        c.op(("after_" + nm).c_str()); reseed(s); out.clear();
        bool ok = e.act(x, a, out); std::string er = sim::err_text();
        if (ok != b.ok || (ok && out != b.out)) c.violate("retry-failed", "%s(%u,%u,%u,%u): with the faults gone, fresh objects gave %s: %s", e.name, a.v[0], a.v[1], a.v[2], a.v[3], ok ? "a wrong result" : "failure", er.c_str());
        x.release();
    }
}
void gen10(Rng &r, Plan &p, bool th) {
    int n = 1 + r.below(th ? 8 : 5);
    for (int i = 0; i < n; i++) {
        std::vector<long long> a{ (long long)pick_op(r.next(), true) };
        for (int j = 0; j < 4; j++) a.push_back(r.below(1 << 20));
        a.push_back(r.next() >> 40);
        a.push_back(r.chance(1, 2) ? 0 : 1 + r.below(3)); // failing requests in a row; 0: all later ones
        a.push_back(r.below(4));                        // bit 0: retry on the same objects, bit 1: the source answers -1
        a.push_back(r.next() >> 40);                    // which request
        a.push_back(2 + r.below(4));
        p.add("rng", a);
    }
}
// the keying material a transported key names must be bytes the source delivered
void ukm_from_source(Ctx &c, const Bytes &blob, const Bytes &tape) {
    Node n; Bytes b(blob.begin() + 2, blob.end()); if (!parse(b, n)) return; std::vector<Node *> v; leaves(n, v); bool kexp = n.kids.size() && n.kids[0].tag == 4; int found = 0;
    for (auto q : v) if (q->tag == 4 && q->body.size() == (kexp ? 32 : 8)) {
        found++; if (std::search(tape.begin(), tape.end(), q->body.begin(), q->body.end()) == tape.end()) c.violate("predictable-secret", "a key was transported under keying material that did not come from the random source");
    }
    c.count(found ? "keying_material_traced" : "keying_material_not_found");
}
void exec10(const Plan &p, Ctx &c) {
    for (auto &o : p.ops) {
        Guard gd; OpObj x; OpArgs a = args(o, 1, p.seed); int op = o.mod(0, n_eng_ops); const EngOp &e = eng_ops[op]; if (e.rng == RN_NONE) continue;
        int burst = o.mod(6, 4), mode = o.mod(7, 4), reps = std::min<uint64_t>(o.mod(9, 64), 30); uint64_t s = mix64(a.seed, 6);
        bool needs = op_needs_rng(op, a); std::string nm = e.name; Bytes out, other; c.op(("prepare_" + nm).c_str()); op_material(op, a);
        bool okb, oko; c.op(("undisturbed_" + nm).c_str());
        reseed(s + 1); oko = e.act(x, a, other); x.release(); sim::err_text();
        Bytes base; reseed(s); okb = e.act(x, a, base); uint64_t n = sim::rnd.calls, nb = sim::rnd.bytes; x.release(); std::string er = sim::err_text();
        if (okb != oko) c.violate("random-outcome", "%s succeeds for one random stream and not for another: %s", e.name, er.c_str());
        c.mixsig(nm); for (int i = 0; i < 4; i++) c.mixsig(a.v[i] % 12);
        if (!okb) { c.count("undisturbed_refused"); continue; }
        if (needs) {
            if (nb < 8) c.violate("no-randomness", "%s(%u,%u,%u,%u) drew only %llu random bytes", e.name, a.v[0], a.v[1], a.v[2], a.v[3], (unsigned long long)nb);
            if (base == other) c.violate("no-randomness", "%s(%u,%u,%u,%u) gave the same secret for two different random streams", e.name, a.v[0], a.v[1], a.v[2], a.v[3]);
        }
        if (!n) { c.count("no_requests"); continue; }
        for (int i = 0; i < reps; i++) {
            uint64_t pos = i == 0 ? 0 : (uint64_t)(o.arg(8) + i * 0x9e37) % n; bool all = burst == 0;
            reseed(s); sim::rnd.recording = true; sim::rnd.record.clear(); sim::rnd.fail_from = pos; sim::rnd.fail_count = all ? 1000000 : burst; sim::rnd.fail_ret = mode & 2 ? -1 : 0; out.clear();
            c.op(("failing_" + nm).c_str());
            bool ok = e.act(x, a, out); uint64_t f = sim::rnd.failed; sim::rnd.fail_from = -1; sim::rnd.recording = false; er = sim::err_text();
            if (ok && nm == "transport" && !(a.v[2] & 1)) ukm_from_source(c, out, sim::rnd.record);
            if (f) { c.count(all ? "fault.random_source_dead" : "fault.random_source_burst", 1); c.nontrivial = true; }
            c.log("%s random source failing at %llu of %llu: %d", e.name, (unsigned long long)pos, (unsigned long long)n, ok);
            c.mixsig(pos); c.mixsig(burst);
            if (ok && f && needs && all && pos == 0) c.violate("success-without-randomness", "%s(%u,%u,%u,%u) reported success although the random source answered no request", e.name, a.v[0], a.v[1], a.v[2], a.v[3]);
            // what is handed out depends only on bytes the source delivered: either nothing was missing, or the later answers were used instead
            if (ok && f && needs && all && out != base) c.violate("predictable-secret", "%s(%u,%u,%u,%u): request %llu of %llu failed, success was reported with something else than with a healthy source", e.name, a.v[0], a.v[1], a.v[2], a.v[3], (unsigned long long)pos, (unsigned long long)n);
            if (ok && f && !needs && out != base) c.violate("wrong-result", "%s: a failed masking request changed the result", e.name);
            if (ok && f && needs && !all) {
                // the same failure pattern over another stream must not give the same secret
                Bytes o2; x.release(); reseed(s + 1); sim::rnd.fail_from = pos; sim::rnd.fail_count = burst; bool k2 = e.act(x, a, o2); sim::rnd.fail_from = -1; sim::err_text();
                if (k2 && o2 == out) c.violate("predictable-secret", "%s(%u,%u,%u,%u): requests %llu.. failed, the secret handed out does not depend on the random source", e.name, a.v[0], a.v[1], a.v[2], a.v[3], (unsigned long long)pos);
            }
            c.count(ok ? "survived" : "reported");
            if (!ok && (mode & 1)) {
                c.op(("same_objects_" + nm).c_str()); x.reused = true; Bytes tape = sim::rnd.record; reseed(s); sim::rnd.recording = true; out.clear();
                bool k2 = e.act(x, a, out); er = sim::err_text(); sim::rnd.recording = false; tape = cat(tape, sim::rnd.record);
                if (k2 && nm == "transport" && !(a.v[2] & 1)) ukm_from_source(c, out, tape);
                if (!k2 || (out != base && nm != "transport")) c.violate("retry-failed", "%s(%u,%u,%u,%u): once the source recovered, the same objects gave %s: %s", e.name, a.v[0], a.v[1], a.v[2], a.v[3], k2 ? "a different result" : "failure", er.c_str());
                c.count("recovered_same_objects");
            }
            x.release(); reseed(s); out.clear(); bool k3 = e.act(x, a, out); er = sim::err_text();
            if (!k3 || out != base) c.violate("retry-failed", "%s(%u,%u,%u,%u): once the source recovered, fresh objects gave %s: %s", e.name, a.v[0], a.v[1], a.v[2], a.v[3], k3 ? "a different result" : "failure", er.c_str());
            x.release();
        }
        c.logb(e.name, base);
    }
}
RegScenario r1({ "C11", "faults", 1, gen11, exec11, true });
RegScenario r2({ "C10", "random", 1, gen10, exec10, true });
RegProp p1({ "C11", "fault-injection",
    "A run takes a few of 30 operations (digests, ciphers, AEAD, re-keying, MACs, key generation, signatures, derivation, transport both ways, encoding and decoding of keys and parameters, settings, password-based encryption, CMS) with seeded arguments, counts its allocation and library-call points undisturbed, then repeats it with one, a few consecutive or all later points failing at seeded positions, some on the very first use of the algorithm. After each attempt: failure or exactly the undisturbed result; the same objects, and fresh ones, give that result once the fault is gone; nothing stays allocated. Non-trivial: a fault fired inside an operation.",
    { "the engine" }, { "memory allocator (engine's requests)", "libcrypto functions called by the engine, when failing", "random source" },
    { "allocations made inside libcrypto on its own behalf do not fail" }, 9000, 300000 });
RegProp p2({ "C10", "fault-injection",
    "A run takes a few of the operations that consume randomness with seeded arguments, counts their requests, then repeats them with the random source failing from a seeded request on or for a burst of requests, answering 0 or -1. Success must not be reported when the source answered nothing, a result must depend only on bytes delivered, and the same objects and fresh ones work again once the source recovers. Non-trivial: a request failed inside an operation.",
    { "the engine" }, { "random source" }, { "masking randomness may be missing without effect on the result" }, 9000, 300000 });
}
