pub static ASSUMPTIONS: &[&str] = &[
    "the in-memory transport of ntex-io (IoTest) and its filter chain deliver bytes in order and unmodified",
    "one endpoint runs on one thread; what varies is the order of inputs against the executor's polls",
    "peers other than in C03, C04, C05, C06 and C22 follow the AMQP 1.0 protocol",
    "bounds: depth, deviations and menu of each scenario as listed under scenarios",
];

pub static PLANS: &[Plan] = &[
    Plan { id: "C01", fams: &[
        ("codec-api", (1, 0), (2, 0)),
        ("codec-forms", (1, 0), (2, 0)),
        ("codec-var", (1, 0), (2, 0)),
        ("codec-msg", (1, 0), (2, 0)),
    ] },
    Plan { id: "C02", fams: &[
        ("codec-forms", (1, 0), (2, 0)),
        ("codec-var", (1, 0), (2, 0)),
        ("codec-msg", (1, 0), (2, 0)),
    ] },
    Plan { id: "C03", fams: &[
        ("codec-mut", (1, 0), (2, 0)),
        ("codec-forms", (1, 0), (2, 0)),
        ("codec-var", (1, 0), (2, 0)),
        ("codec-msg", (1, 0), (2, 0)),
    ] },
    Plan { id: "C04", fams: &[
        ("codec-split", (1, 0), (2, 0)),
        ("codec-mut", (1, 0), (2, 0)),
    ] },
    Plan { id: "C05", fams: &[
        ("hs-server", (1, 0), (2, 0)),
    ] },
    Plan { id: "C06", fams: &[
        ("hs-client", (1, 0), (2, 0)),
    ] },
    Plan { id: "C07", fams: &[
        ("close", (2, 2), (3, 2)),
        ("closing", (3, 2), (4, 2)),
        ("lrcv", (4, 2), (5, 2)),
        ("credit", (4, 2), (5, 2)),
        ("sess", (5, 2), (6, 1)),
        ("link", (5, 1), (6, 1)),
        ("frag", (3, 2), (4, 2)),
    ] },
    Plan { id: "C08", fams: &[
        ("close", (2, 2), (3, 2)),
        ("closing", (3, 1), (4, 1)),
        ("frag", (3, 2), (4, 2)),
        ("lrcv", (4, 2), (5, 2)),
        ("link-gated", (5, 1), (6, 1)),
        ("link", (5, 1), (6, 1)),
        ("sess", (5, 1), (6, 1)),
        ("sess-client", (5, 1), (6, 1)),
        ("window", (4, 1), (5, 1)),
        ("outcome", (3, 2), (5, 1)),
        ("early-gated", (5, 1), (6, 1)),
        ("ctl", (5, 1), (6, 1)),
        ("credit", (4, 1), (5, 1)),
        ("wend", (4, 1), (5, 1)),
        ("byh", (3, 1), (3, 1)),
        ("byh-gated", (3, 1), (4, 1)),
        ("waits", (2, 1), (3, 1)),
    ] },
    Plan { id: "C09", fams: &[
        ("sess", (5, 2), (6, 1)),
        ("sess-client", (6, 1), (6, 1)),
        ("cross", (2, 2), (3, 2)),
        ("wend", (4, 1), (5, 1)),
        ("closing", (3, 2), (4, 2)),
        ("many-sess", (2, 1), (3, 1)),
    ] },
    Plan { id: "C10", fams: &[
        ("link", (5, 1), (6, 1)),
        ("link-gated", (5, 1), (6, 1)),
        ("ctl", (5, 1), (6, 1)),
        ("cross", (2, 2), (3, 2)),
        ("early", (6, 1), (6, 1)),
        ("early-gated", (6, 1), (6, 1)),
        ("closing", (3, 1), (4, 1)),
        ("rgate", (6, 1), (6, 1)),
        ("many-links", (1, 1), (3, 1)),
        ("fend", (3, 2), (4, 1)),
        ("byh", (3, 1), (4, 1)),
        ("byh-gated", (3, 1), (4, 1)),
    ] },
    Plan { id: "C11", fams: &[
        ("cross", (2, 2), (3, 2)),
        ("wend", (4, 1), (5, 1)),
        ("fend", (3, 2), (4, 1)),
        ("credit2", (4, 1), (5, 1)),
        ("closing", (3, 1), (4, 1)),
        ("outcome", (4, 1), (5, 1)),
        ("router2", (3, 1), (4, 1)),
        ("many-links", (1, 1), (3, 1)),
        ("many-sess", (2, 1), (3, 1)),
        ("byh", (3, 1), (4, 1)),
    ] },
    Plan { id: "C12", fams: &[
        ("credit", (4, 1), (5, 1)),
        ("credit-local", (4, 1), (5, 1)),
        ("credit2", (4, 1), (5, 1)),
        ("early", (6, 1), (6, 1)),
        ("early-gated", (6, 1), (6, 1)),
        ("window", (4, 1), (5, 2)),
        ("outcome", (4, 1), (5, 1)),
        ("cross", (2, 2), (3, 2)),
        ("many", (2, 2), (4, 1)),
        ("wrap-snd", (5, 1), (5, 1)),
        ("huge-snd", (3, 1), (4, 1)),
    ] },
    Plan { id: "C13", fams: &[
        ("window", (4, 2), (5, 2)),
        ("window0", (6, 1), (6, 1)),
        ("wend", (4, 1), (5, 1)),
        ("frag", (3, 2), (4, 2)),
        ("cross", (2, 2), (3, 2)),
        ("wrap-rcv", (4, 1), (5, 1)),
        ("huge-snd", (4, 1), (4, 1)),
    ] },
    Plan { id: "C14", fams: &[
        ("frag", (3, 2), (4, 2)),
        ("fend", (3, 2), (4, 1)),
        ("sizes", (5, 1), (6, 1)),
        ("sizes2", (6, 1), (6, 1)),
        ("sizes3", (6, 1), (6, 1)),
        ("credit", (4, 1), (5, 1)),
        ("credit2", (4, 1), (5, 1)),
        ("window", (4, 1), (5, 2)),
        ("outcome", (3, 2), (5, 1)),
        ("wend", (4, 1), (5, 1)),
        ("mms", (3, 2), (4, 1)),
        ("many", (2, 2), (4, 1)),
    ] },
    Plan { id: "C15", fams: &[
        ("outcome", (4, 1), (5, 1)),
        ("outcome2", (2, 2), (3, 2)),
        ("frag", (3, 2), (4, 2)),
        ("cross", (2, 2), (3, 2)),
        ("credit", (4, 1), (5, 1)),
        ("closing", (3, 2), (4, 1)),
        ("many", (2, 2), (3, 2)),
        ("ranges", (2, 1), (2, 1)),
        ("waits", (2, 1), (3, 1)),
    ] },
    Plan { id: "C16", fams: &[
        ("rcv", (4, 2), (5, 2)),
        ("rcv2", (4, 1), (5, 1)),
        ("rgate", (6, 1), (6, 1)),
        ("lrcv", (4, 2), (5, 2)),
        ("rsize", (4, 1), (5, 1)),
        ("router", (3, 1), (4, 1)),
        ("cross", (2, 2), (3, 2)),
        ("many-rcv", (2, 1), (3, 1)),
        ("wrap-rcv", (4, 1), (5, 1)),
    ] },
    Plan { id: "C17", fams: &[
        ("rcv", (4, 2), (5, 2)),
        ("rcv2", (4, 1), (5, 1)),
        ("rsize", (4, 1), (5, 1)),
        ("lrcv", (4, 2), (6, 1)),
        ("rgate", (6, 1), (6, 1)),
        ("lsettle", (4, 1), (5, 1)),
        ("wrap-rcv", (4, 1), (5, 1)),
        ("huge-rcv", (6, 1), (6, 1)),
    ] },
    Plan { id: "C18", fams: &[
        ("lsettle", (4, 1), (5, 1)),
        ("rcv", (4, 2), (5, 2)),
        ("rcv2", (4, 1), (5, 1)),
        ("router", (3, 1), (4, 1)),
        ("rsize", (4, 1), (5, 1)),
        ("cross", (2, 2), (3, 2)),
        ("many-rcv", (1, 1), (3, 1)),
        ("wrap-rcv", (4, 1), (5, 1)),
        ("ranges-rcv", (2, 1), (2, 1)),
    ] },
    Plan { id: "C19", fams: &[
        ("router", (3, 2), (4, 2)),
        ("router0", (5, 1), (6, 1)),
        ("router2", (3, 1), (4, 1)),
    ] },
    Plan { id: "C20", fams: &[
        ("ctl", (5, 1), (6, 1)),
        ("cflow", (4, 1), (5, 1)),
        ("link-gated", (5, 1), (6, 1)),
        ("link", (5, 1), (6, 1)),
        ("cross", (2, 2), (3, 2)),
        ("closing", (3, 2), (4, 2)),
        ("early-gated", (6, 1), (6, 1)),
        ("rgate", (6, 1), (6, 1)),
        ("byh-gated", (3, 1), (4, 1)),
    ] },
    Plan { id: "C21", fams: &[
        ("idle", (1, 0), (2, 0)),
    ] },
    Plan { id: "C22", fams: &[
        ("hostile", (1, 0), (2, 0)),
    ] },
    Plan { id: "C23", fams: &[
        ("sess", (5, 1), (6, 1)),
        ("link", (5, 1), (6, 1)),
        ("credit", (4, 1), (5, 1)),
        ("window", (4, 1), (5, 1)),
        ("outcome", (3, 2), (5, 1)),
        ("rcv", (4, 2), (5, 2)),
        ("rsize", (3, 2), (5, 1)),
        ("lrcv", (4, 2), (5, 2)),
        ("close", (2, 2), (3, 2)),
        ("ctl", (4, 2), (6, 1)),
        ("cross", (2, 2), (3, 1)),
        ("many-links", (1, 1), (2, 2)),
        ("sess-client", (5, 1), (6, 1)),
        ("link-gated", (5, 1), (6, 1)),
        ("huge-rcv", (5, 1), (6, 1)),
        ("huge-snd", (3, 1), (4, 1)),
        ("byh", (3, 1), (3, 1)),
        ("waits", (2, 1), (3, 1)),
        ("ranges-rcv", (2, 1), (2, 1)),
    ] },
    Plan { id: "C24", fams: &[
        ("fields", (2, 0), (3, 0)),
    ] },
    Plan { id: "C25", fams: &[
        ("services", (2, 0), (3, 0)),
    ] },
    Plan { id: "C26", fams: &[
        ("cycles", (3, 0), (4, 0)),
    ] },
];
