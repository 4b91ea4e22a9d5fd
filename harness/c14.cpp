#include "lcheck.hpp"
const char* PROP = "C14";
uint64_t ncases(const Ctx& c) { return c.thorough ? 256000 : 12800; }
void run_case(Ctx& c, uint64_t idx) {
    static const int T[] = {LINEAR, CONV, BN1, BN2};
    Rng& r = c.rng; int t = T[idx % 4]; Spec s; Shape in; GenOpt o; o.huge = 400; o.cap4 = r.chance(1, 8) ? 14 : 7; o.cap2 = r.chance(1, 10) ? 200 : 40; o.batch = 7;
    bool lng = r.chance(1, 150); if (lng) { o.huge = 0; o.cap4 = 4; o.cap2 = 6; o.batch = 3; }
    gen_layer(r, t, s, in, o);
    if (idx % 200 < 4 && !lng) in[0] = dim(r, 100);
    
    int mode = r.of({SGN, SGN, UNI, INTS, POS, SPARSE, MIXED});
    std::string key = lt_name(t);
    c.desc("%s|%s in=%s mode=%s", lt_name(t), s.str().c_str(), str(in).c_str(), mode_name(mode));
    Inst I(s, in); randomize(r, I, mode == INTS ? INTS : SGN);
    int rounds = lng ? r.range(260, 700) : r.range(2, 5); if (lng) c.count("long_histories");
    for (int k = 0; k < rounds; ++k) {
        Shape sh = in; if (k && r.chance(1, 2)) { sh[0] = r.range(1, 9); c.count("batch_changes"); }
        Run R; R.inputs(r, I, sh, mode);
        if (r.chance(1, 4)) { Run Q; Q.inputs(r, I, sh, SGN); I.forward(Q.xt(), Q.y.t); c.count("abandoned_forwards"); }     // an earlier batch that must not matter
        bool train = !r.chance(1, 4); I.train(train); if (!train) c.count("evaluation_rounds");
        if (!R.forward(c, I, sh, train, key)) return;
        if (r.chance(1, 4)) { I.train(r.chance(1, 2)); c.count("switched_before_backward"); }
        int reps = r.range(1, 3);
        for (int q = 0; q < reps; ++q) {
            poison_grads(r, I);
            std::map<std::string, std::vector<uint32_t>> before; for (auto& kv : I.info.impl().params) before[kv.first] = bitsof(kv.second.data());
            R.grads(r, I, sh, r.of({SGN, INTS, UNI, MIXED, SPARSE}), r.chance(1, 2));
            if (!R.backward(c, I, sh, key)) return;
            for (auto& kv : I.info.impl().params) if (!samebits(kv.second.data(), before[kv.first])) { c.fail(key + ":param-changed", "backward changed the value of " + kv.first); return; }
            if (mode == INTS && !is_bn(s)) c.count("integer_batches");
        }
        if (r.chance(1, 2)) randomize(r, I, mode == INTS ? INTS : SGN);
    }
}
