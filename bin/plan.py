"""Which client scenarios decide which property, and the rule each applies."""
EXPL = ("Abstract interpretation of the monomorphised MIR of /repo's current source together with a client crate (the most general clients of "
        "an interface and the property's specification as a state machine), to a fixpoint over abstract states modulo heap isomorphism; items, errors and "
        "predicate results are uninterpreted tokens split lazily. No code is executed and no solver is used. Obligation = a specification "
        "check at a program point reached on some abstract state.")
ASSUME = ["std containers, Arc, RwLock, Mutex, Condvar, thread and time follow their documented semantics (modelled in rxsa)",
          "lock poisoning, allocation failure and unwinding through user callbacks are out of scope",
          "operator parameters and lengths beyond the stated parameter set / event depth are covered only where the state space closed without the depth cut"]
S1 = ["hot", "twin", "cold", "reent"]


def s(*kinds):
    return [f"sc_{k}_*" for k in kinds]


PLAN = {
    "C01": {"scenarios": s("hot", "reent", "mhot", "mreent", "subj", "time", "hand", "thr", "dia") + ["sc_conn*"], "rule": "typestate next* (error|complete)? of the subscriber, also for events after the source's terminal"},
    "C02": {"scenarios": s("hot", "chot", "cold", "gen", "endless", "reent", "long") + ["sc_lgen"], "rule": "every event delivered equals the next event the operator's definition assigns; nothing missing at each event boundary"},
    "C03": {"scenarios": s("mhot", "mcold", "mreent", "endless", "mlong", "dia") + ["sc_lflat", "sc_conce_seq_eq", "sc_concc_seq_eq", "sc_ready_set_go"], "rule": "for every interleaving of the inputs' events the events delivered are those the combining operator's definition assigns to that interleaving"},
    "C04": {"scenarios": s("hot", "cold", "mhot", "mcold", "gen", "conce", "long", "time", "subj", "fut", "dia") + ["sc_conn*"], "rule": "the error token delivered is the token injected, after all earlier items, exactly once; recovery operators resubscribe as their definition says"},
    "C05": {"scenarios": s("hot", "creent", "reent", "mhot", "mreent", "concu", "concsu", "subj", "hand", "connr", "unsub2", "thr", "time", "dia") + ["sc_conn*", "sc_using"], "rule": "no callback after unsubscribe returned; is_subscribed() true before and false after the end"},
    "C06": {"scenarios": s("hot", "chot", "cold", "reent", "mhot", "mcold", "mreent", "concu", "concsu", "hand", "fut", "endless", "connr", "thr", "time", "dia") + ["sc_conn*", "sc_using", "sc_connz*"], "rule": "the observer handed to every source is unsubscribed after the end"},
    "C07": {"scenarios": s("reent", "creent", "reentf", "hot", "mreent", "sreent", "sched", "hand", "fut", "conc", "concu", "concc", "concsu", "concse", "endless", "connr", "connc", "thr", "time", "dia", "drop") + ["sc_sconc*", "sc_sjoin*"], "locks": True, "rule": "no lock acquired while the same thread holds it; no cyclic wait; no repeating state at a loop head"},
    "C08": {"scenarios": s("sched") + ["sc_lsched"], "rule": "under every interleaving of posters, aborter and worker with at most the stated number of preemptions, tasks run one at a time, at most once, in posting order on the worker's thread, and the worker ends after abort"},
    "C09": {"scenarios": s("hand") + ["sc_lhand"], "rule": "under every interleaving of the emitting thread, an unsubscriber and the worker with at most the stated number of preemptions, the events delivered are those emitted, in order, on the worker's thread"},
    "C10": {"scenarios": s("subj", "sreent", "lsubj"), "rule": "for every call history each observer of a subject receives exactly the events the subject's definition assigns to it"},
    "C11": {"scenarios": s("conc", "conct", "conce", "concsp"), "rule": "under every interleaving of the inputs' threads with at most the stated number of preemptions, items are conserved and exactly one terminal is delivered"},
    "C12": {"scenarios": ["sc_sconc*", "sc_sjoin*"], "rule": "under every interleaving of the producers, a subscriber and an unsubscriber with at most the stated number of preemptions, each observer receives per producer the sequence (suffix, prefix) the definition assigns"},
    "C13": {"scenarios": ["sc_conn*", "sc_lconn_*"], "rule": "for every history of connect, subscribe, unsubscribe and source events (also from inside callbacks, and under concurrent subscribers with at most the stated number of preemptions) there is at most one live source subscription, it is there when the operator's definition says, and every observer receives what the definition assigns"},
    "C14": {"scenarios": s("twin", "cold", "mtwin", "gen", "ttwice") + ["sc_dia_cold"], "rule": "each subscription of one Observable value matches the definition run on its own source events"},
    "C15": {"scenarios": s("thr", "hand", "time") + ["sc_lthr"], "rule": "for every pipeline that starts threads and every cause of its end, no library thread is left one timer period (virtual time) after the end"},
    "C16": {"scenarios": s("time", "timeu", "timel") + ["sc_ltime"], "rule": "events and their virtual times are those the time-based operator's definition assigns to the arrivals"},
    "C17": {"scenarios": s("hot", "chot", "reent", "cold", "mhot", "mreent", "subj", "concu", "concsu", "hand", "gen", "connr", "thr", "dia") + ["sc_conn*"], "rule": "owner count of the probes captured by callbacks, closures and items is 1 after the end and the drop of the handles"},
    "C18": {"scenarios": s("fut") + ["sc_lfut"], "rule": "under every interleaving of the polling task and the emitting thread with at most the stated number of preemptions, the future is ready only after the terminal, a pending task is woken, and the result is the source's"},
    "C19": {"scenarios": s("conce", "concc", "conct", "concse", "time", "thr") + ["sc_sconc*", "sc_sjoin4_*", "sc_sjoin5_*"], "rule": "under every interleaving of the inputs' threads with at most the stated number of preemptions, at most one terminal is delivered and no callback starts after it returned"},
}

NA = {}
