mod cost;
mod dbg;
mod engine;
mod forms;
mod gen;
mod grid;
mod lchecks;
mod lmodel;
mod pchecks;
mod pmodel;
mod pspaces;
mod real;
mod sched;
mod syms;
#[global_allocator]
static A: engine::Alloc = engine::Alloc;
use engine::*;

static ORACLES: &[Oracle] = &[
    Oracle { name: "total", f: lchecks::total },
    Oracle { name: "total_flat", f: lchecks::total_flat },
    Oracle { name: "tile", f: lchecks::tile },
    Oracle { name: "pos", f: lchecks::pos },
    Oracle { name: "lexeq", f: lchecks::lexeq },
    Oracle { name: "local", f: lchecks::local },
    Oracle { name: "blanks", f: lchecks::blanks },
    Oracle { name: "arith", f: lchecks::arith },
    Oracle { name: "order", f: lchecks::order },
    Oracle { name: "order_far", f: lchecks::order_far },
    Oracle { name: "wf_pair", f: pchecks::wf },
    Oracle { name: "ptotal", f: pchecks::ptotal },
    Oracle { name: "ptotal_flat", f: pchecks::ptotal_flat },
    Oracle { name: "ptotal_pos", f: pchecks::ptotal_pos },
    Oracle { name: "ptotal_text", f: pchecks::ptotal_text },
    Oracle { name: "wf", f: pchecks::wf },
    Oracle { name: "silent", f: pchecks::silent },
    Oracle { name: "errors", f: pchecks::errors },
    Oracle { name: "accept", f: pchecks::accept },
    Oracle { name: "accept_long", f: pchecks::accept_long },
    Oracle { name: "accept_text", f: pchecks::accept_text },
    Oracle { name: "separators", f: pchecks::separators },
    Oracle { name: "separator_runs", f: pchecks::separator_runs },
    Oracle { name: "layout_text", f: pchecks::layout_text },
    Oracle { name: "comments", f: pchecks::comments },
    Oracle { name: "locality", f: pchecks::locality },
    Oracle { name: "compose", f: pchecks::compose },
    Oracle { name: "iter_errors", f: pchecks::iter_errors },
    Oracle { name: "notes", f: pchecks::notes },
    Oracle { name: "arrays", f: pchecks::arrays },
    Oracle { name: "dressing_same", f: pchecks::dressing_same },
    Oracle { name: "etokens", f: pchecks::etokens },
    Oracle { name: "erange", f: pchecks::erange },
    Oracle { name: "provenance", f: pchecks::provenance },
    Oracle { name: "provenance_text", f: pchecks::provenance_text },
    Oracle { name: "equality", f: pchecks::equality },
    Oracle { name: "equality_mut", f: pchecks::equality_mut },
    Oracle { name: "equality_del", f: pchecks::equality_del },
    Oracle { name: "equality_text", f: pchecks::equality_text },
    Oracle { name: "staged", f: pchecks::staged },
    Oracle { name: "history", f: pchecks::history },
    Oracle { name: "threads", f: pchecks::threads },
    Oracle { name: "dressing", f: pchecks::dressing },
    Oracle { name: "wf_dressed", f: |p| pchecks::with(pchecks::wf, p) },
    Oracle { name: "silent_dressed", f: |p| pchecks::with(pchecks::silent, p) },
    Oracle { name: "errors_dressed", f: |p| pchecks::with(pchecks::errors, p) },
    Oracle { name: "separators_dressed", f: |p| pchecks::with(pchecks::separators, p) },
    Oracle { name: "comments_dressed", f: |p| pchecks::with(pchecks::comments, p) },
    Oracle { name: "locality_dressed", f: |p| pchecks::with(pchecks::locality, p) },
    Oracle { name: "compose_dressed", f: |p| pchecks::with(pchecks::compose, p) },
    Oracle { name: "iter_errors_dressed", f: |p| pchecks::with(pchecks::iter_errors, p) },
    Oracle { name: "etokens_dressed", f: |p| pchecks::with(pchecks::etokens, p) },
    Oracle { name: "erange_dressed", f: |p| pchecks::with(pchecks::erange, p) },
    Oracle { name: "provenance_dressed", f: |p| pchecks::with(pchecks::provenance, p) },
    Oracle { name: "ptotal_dressed", f: |p| pchecks::with(pchecks::ptotal, p) },
    Oracle { name: "convert", f: pchecks::convert },
    Oracle { name: "convert_dressed", f: |p| pchecks::with(pchecks::convert, p) },
    Oracle { name: "wrap", f: pchecks::wrap },
    Oracle { name: "wrap_dressed", f: |p| pchecks::with(pchecks::wrap, p) },
    Oracle { name: "places", f: pchecks::places },
    Oracle { name: "cost_tokens", f: pchecks::cost_tokens },
    Oracle { name: "cost_text", f: pchecks::cost_text },
    Oracle { name: "kept_text", f: pchecks::kept_text },
    Oracle { name: "kept_tokens", f: pchecks::kept_tokens },
    Oracle { name: "schedule_heap", f: pchecks::schedule },
    Oracle { name: "schedule_block", f: pchecks::schedule },
];
type Check = (&'static str, fn(&Run));
static CHECKS: &[Check] = &[
    ("C01", lchecks::c01),
    ("C02", lchecks::c02),
    ("C03", lchecks::c03),
    ("C04", lchecks::c04),
    ("C05", lchecks::c05),
    ("C06", lchecks::c06),
    ("C07", lchecks::c07),
    ("C08", lchecks::c08),
    ("C09", pspaces::c09),
    ("C10", pspaces::c10),
    ("C11", pspaces::c11),
    ("C12", pspaces::c12),
    ("C13", pspaces::c13),
    ("C14", pspaces::c14),
    ("C15", pspaces::c15),
    ("C16", pspaces::c16),
    ("C17", pspaces::c17),
    ("C18", pspaces::c18),
    ("C19", pspaces::c19),
    ("C20", pspaces::c20),
    ("C21", pspaces::c21),
    ("C22", pspaces::c22),
    ("C23", pspaces::c23),
    ("C24", lchecks::c24),
    ("C25", pspaces::c25),
    ("C26", pspaces::c26),
    ("C27", pspaces::c27),
    ("C28", pspaces::c28),
    ("C29", pspaces::c29),
    ("C30", pspaces::c30),
    // run by C01 and C09 in the unoptimised build
    ("C01:flat", lchecks::flat),
    ("C09:flat", pspaces::flat),
    // run by C23 in the build with scheduling points
    ("C23:sched", pspaces::sched),
    ("C29:count", pspaces::count),
];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] => match CHECKS.iter().find(|c| c.0 == id) {
            Some((id, f)) => {
                let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
                let run: &'static Run = Box::leak(Box::new(Run::new(&id[..3], thorough, ORACLES)));
                run.activate();
                f(run);
                run.finish()
            }
            None => {
                eprintln!("no check {id}");
                2
            }
        },
        ["replay", file] => replay(file, &|n| ORACLES.iter().find(|o| o.name == n).map(|o| o.f)),
        ["answer", text] => {
            let t = text.to_string();
            let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || pchecks::answer(&engine::unjson(&t))).unwrap();
            match h.join() {
                Ok(a) => print!("{a}"),
                Err(p) => print!("panicked: {}", panic_text(&p)),
            }
            0
        }
        ["list"] => {
            for c in CHECKS.iter().filter(|c| c.0.len() == 3) {
                println!("{}", c.0);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID | vh replay FILE | vh list");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
