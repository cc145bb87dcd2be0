#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
LEX="explicit-state model checking: exhaustive enumeration of all texts over bounded piece alphabets and of every configuration of a tokenizer state machine, every trace executed on the real tokenizer and compared with a reference model"
GRAM="explicit-state model checking: breadth-first exploration of a pushdown model of the grammar (all viable token sequences / all parser configurations up to a bound), every trace executed on the real parser and judged by the model"
SEQ="bounded exhaustive model checking: every token sequence up to a length bound plus every configuration of the pushdown grammar model, each executed on the real code"
METAM="bounded exhaustive model checking: every program of a bounded space x every variation of it, all executed on the real code and compared with each other"
NOTE_L="Exhaustive within the bounds written to the evidence file; the real tokenizer (built from /repo, overflow checks on) runs on every enumerated text. Trusted: the reference tokenizer in harness/src/lmodel.rs and rustc. Longer texts and characters outside the alphabets are covered only through the configuration machine and the scaling families."
NOTE_P="Exhaustive within the bounds written to the evidence file; the real parser (built from /repo, overflow checks on) runs on every enumerated program. Trusted: the reference grammar in harness/src/pmodel.rs, the reading of the AST through its public fields and Debug form, and rustc. Longer programs are covered through the configuration cover and the growing families (up to 300 repetitions or levels)."
NOTE_S="Exhaustive within the bounds written to the evidence file. Schedules: sequentially consistent interleavings of two calls with at most 1 switch (2 for the shortest texts) at basic-block granularity and at most 2 to 4 at heap-operation granularity; weak-memory effects and three concurrent calls are outside the bound. Histories and thread assignments: all triples of calls over a pool of texts. Trusted: the scheduler in harness/src/sched.rs, the sanitizer-coverage pass of rustc that inserts the switch points, and a fresh process as the reference."
NOTE_C="Exhaustive over the program shapes written to the evidence file; the real library (built from /repo) runs each. Growth is judged on finite steps (16 times as long must cost at most 48 times as much), so a growth slower than that factor per step, or one that starts beyond the sizes run, is outside the bound. Work counts basic blocks of the library, core and alloc, bytes copied by memcpy and memmove, and heap operations."
C={
"C01":(LEX,NOTE_L),"C02":(LEX,NOTE_L),"C03":(LEX,NOTE_L),"C04":(LEX,NOTE_L),"C05":(LEX,NOTE_L),"C06":(LEX,NOTE_L),"C07":(LEX,NOTE_L),
"C08":("bounded exhaustive model checking: all pairs of texts over a piece alphabet, the run on the joined text compared with the runs on the parts",NOTE_L),
"C09":(SEQ,NOTE_P),"C10":(METAM,NOTE_P),"C11":(METAM,NOTE_P),"C12":(GRAM,NOTE_P),"C13":(GRAM,NOTE_P),"C14":(GRAM,NOTE_P),"C15":(GRAM,NOTE_P),"C16":(SEQ,NOTE_P),"C17":(SEQ,NOTE_P),
"C18":("bounded exhaustive model checking: every malformed line of a bounded space in every place of a set of program skeletons, compared with the run without it",NOTE_P),
"C19":("bounded exhaustive model checking: all pairs of programs of a bounded space, the run on the whole compared with the runs on the parts",NOTE_P),
"C20":(SEQ,NOTE_P),"C21":(GRAM,NOTE_P),"C22":(GRAM,NOTE_P),
"C23":("stateless model checking of the real code under a controlled scheduler: all schedules of two concurrent calls up to a bound on thread switches (switch points: every basic block of the library, in a build of its own; every heap operation), plus all call histories and call-to-thread assignments up to a bound, each result compared with a fresh process",NOTE_S),
"C24":("bounded exhaustive model checking: every sequence of position operations over boundary values, against exact integer arithmetic",NOTE_L),
"C25":(SEQ,NOTE_P),"C26":("bounded exhaustive model checking: all pairs of values of bounded spaces, equality compared with structural identity",NOTE_P),
"C29":("bounded exhaustive model checking: every program shape of a bounded space, repeated and nested to growing sizes, each executed in a build that counts executed basic blocks, copied bytes and held memory, the growth compared with the size",NOTE_C),
"C30":("bounded exhaustive model checking: call histories over every text and token sequence of a bounded space, each executed with all heap memory accounted for, the memory held compared after every round",NOTE_C),
"C27":(METAM,NOTE_P),"C28":("bounded exhaustive model checking: every token kind, operator, position pair and every node of every program of a bounded space, each converted, wrapped and shown by the real code and compared with what it was built from",NOTE_P),
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"./check.sh build",
"checks":[{"property":i,"quick_cmd":f"VERIF_TIER=quick ./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":C[i][0],"level":"model_checking","level_note":C[i][1]} for i in props if i in C],
"not_applicable":[],
"notes":"One harness crate (harness/) decides all properties; check.sh builds it against /repo's working tree and runs one check. Everything is observed through the public API, except the tokens and range of an assignment (C21, C22), which a guarded re-export reaches.",
"hooks":{"guard":"cfg lolcode_verif","enable":"RUSTFLAGS=\"--cfg lolcode_verif\" (check.sh)","source_commits":["c7afc51ff2cc5d46d94b891c9f12306d6f59711a"]}}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
