"""Technique and level note of each claimed property (input of make_manifest.py)."""
REAL = ("Every execution of the stated finite space is run on the real code and compared with an independent "
        "reference model (mc/ref.py); nothing is claimed outside the bounds listed in the evidence and DESIGN.md. ")

NOTES = {
    "C01": ("exhaustive enumeration of networks x injection lattices x action sequences on the real simulator, each state checked against an independent AC power-flow residual",
            REAL + "Trusts numpy linear algebra and the independent pi-model admittance construction."),
    "C02": ("exhaustive enumeration of injections along load rays and lattices on the real solver, verdicts compared with an independent operating-point oracle (closed-form two-bus, continuation elsewhere)",
            REAL + "Solvability oracle is exact for two-bus grids and a continuation of the high-voltage branch elsewhere, with a margin around the nose."),
    "C03": ("exhaustive enumeration of networks x injection lattices x action sequences, branch quantities compared with an independent pi-model",
            REAL),
    "C04": ("exhaustive enumeration of networks x bases x action sequences, every quantity compared across all its units in states and in bounds",
            REAL),
    "C05": ("exhaustive enumeration of set-point lattices over device-parameter and state-of-charge lattices, each applied injection checked against the device's region",
            REAL + "Accuracy of the projections is the QP solver's (1e-4 p.u.)."),
    "C06": ("exhaustive enumeration of set-point lattices over device lattices, each applied injection compared with an exact geometric projection (vertex/edge enumeration)",
            REAL + "Accuracy 1e-4 p.u."),
    "C07": ("exhaustive exploration of charge/discharge action sequences to a bounded depth (states merged by SoC), an independent energy ledger run alongside",
            REAL),
    "C08": ("exhaustive enumeration of networks x set-points x clipping configurations, each reward compared with an independent cost model",
            REAL),
    "C09": ("exhaustive enumeration of networks, states and action sequences; bounds compared with the specification and every reached state and observation checked against them",
            REAL),
    "C10": ("exhaustive exploration of action sequences containing collapses, resets and post-terminal steps, compared with an absorbing-state reference automaton",
            REAL),
    "C11": ("exhaustive enumeration of initial-state lattices and of histories before a reset, each continuation compared with that of a fresh environment",
            REAL),
    "C12": ("exhaustive enumeration of interleavings of operations of several environments and agents, each trace compared with its run in isolation",
            REAL),
    "C13": ("exhaustive enumeration of networks x bases x action sequences, lock-step comparison (bisimulation) with the re-based network",
            REAL),
    "C14": ("exhaustive enumeration of row orders and id renamings x action sequences, lock-step comparison (bisimulation) with the original network",
            REAL),
    "C15": ("exhaustive enumeration of single- and multi-entry actions and of invalid actions at every state of bounded histories, compared with a reference mapping and an undisturbed twin",
            REAL),
    "C16": ("exhaustive enumeration of next-variable vectors and wrong-size vectors along bounded histories, compared with a reference state layout",
            REAL),
    "C17": ("exhaustive enumeration of observation specifications over a bounded grammar x histories, compared with quantities computed by the reference model",
            REAL),
    "C18": ("exhaustive enumeration of single- and two-fault corruptions of network dictionaries (every cell x a value lattice), verdict and error class compared with a reference validator",
            REAL + "Corruptions are of at most two cells at a time, from the value lattices listed in the evidence."),
    "C19": ("exhaustive enumeration of environment constructor arguments over value lattices, verdict and error class compared with a reference validator",
            REAL),
    "C20": ("exhaustive enumeration of the reachable times of day x planning horizons (perfect forecasts compared with the realized future of a twin) and of networks x states x horizons (constant forecasts)",
            REAL),
    "C21": ("exhaustive enumeration of networks x bounded histories x planning configurations; each action compared with the optimum of an independent formulation of the N-stage DC OPF (HiGHS)",
            REAL + "Optimality is decided on the objective value of a completed plan, accuracy 1e-4 relative."),
    "C22": ("exhaustive walk of the reachable time states of the task (all 96 quarter-hours x all profiles x action sequences), each compared with an independent reference of the published task",
            REAL),
    "C23": ("exhaustive enumeration of mutations of every object passed to or returned by the environment, each at every state of bounded histories, the continuation compared with an undisturbed twin",
            REAL),
    "C25": ("exhaustive enumeration of time steps, start dates, episode lengths and resets; the displayed clock compared with a reference clock after every operation",
            REAL),
    "C27": ("exhaustive enumeration of the positions (1 to 101, never) of the first feasible initial state x kinds of rejected candidates x histories, each continuation compared with a twin that never saw a rejected one",
            REAL),
    "C28": ("exhaustive exploration of operation sequences on networks x observation kinds x reward configurations, each returned value checked against the interface contract and a reference automaton; lock-step comparison of the registered environment",
            REAL),
    "C24": ("exhaustive enumeration of the interleavings of connection events, and of thread schedules (preemption-bounded, at every source line) of the real message server; interleavings replayed with real sockets",
            REAL + "Threads switch between source lines, at most 2 (3) preemptions per schedule."),
    "C29": ("exhaustive exploration of reset/step/render/close sequences with faults, the viewer's messages compared with a reference of what is to be displayed",
            REAL),
    "C26": ("exhaustive enumeration of sequences of updates (all pairs over an alphabet in which every quantity takes every class of values) on the real viewer scripts in a minimal browser; the final document compared with a reference and with a page that saw only the last update",
            REAL + "The browser is a minimal document model built from network.svg, run by node."),
}
