// C07: multi-shot solving.
#include "dlmon.hh"

namespace M {

CHECK(C07) {
    auto &rng = c.rng;
    int threads = rng.chance(25) ? rng.range(2, 4) : 1;
    auto args = randomClaspArgs(rng, false, threads > 1);
    args.insert(args.begin(), {"0", "--warn=none"});
    if (threads > 1 && rng.chance(50)) {
        args.push_back("-t" + std::to_string(threads));
    }
    auto opts = randomDlOpts(rng, threads);
    if (rng.chance(15)) {
        opts.emplace_back("shift-constraints", "yes");
    }
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n";
    DLRun run{opts, args};
    GenOpt go;
    go.maxExternals = 2;
    go.maxVars = 4;
    go.maxBody = 2;
    go.maxHead = 3;
    go.maxChoice = 2;
    go.maxRules = 2;
    Session s{c, run, go, threads > 1};
    int steps = rng.range(2, c.thorough ? 5 : 4);
    int n = 0;
    for (int i = 0; i < steps; ++i) {
        s.step();
        if (rng.chance(15)) {
            s.step(); // two parts before solving
        }
        int solves = rng.pick({1, 1, 2, 3});
        for (int j = 0; j < solves; ++j) {
            run.solveMode = rng.range(0, 2);
            s.shuffleExternals();
            s.randomThreads();
            s.pickAssumptions();
            auto r = s.solveCompare(("step " + std::to_string(i) + " solve " + std::to_string(j)).c_str());
            if (r < 0) {
                return;
            }
            n += r > 0;
        }
    }
    c.count("steps", s.steps);
    if (n > 1) {
        c.nontrivial(c.log.str());
    }
}

} // namespace M
