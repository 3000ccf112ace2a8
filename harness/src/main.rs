mod alloc;
mod dump;
mod emit;
mod model;
mod observe;
mod p_any;
mod p_determinism;
mod p_equal;
mod p_fault;
mod p_release;
mod p_write;
mod p_errors;
mod p_files;
mod p_include;
mod p_model;
mod p_names;
mod p_options;
mod p_values;
mod p_report;
mod p_robust;
mod p_context;
mod p_lex;
mod p_cost;
mod p_scale;
mod p_memory;
mod p_system;
mod rng;
mod sup;

use sup::{Prop, WorkerArgs};

static PROPS: &[Prop] = &[
    Prop {
        id: "C02",
        rule: "random well-formed ledgers printed in random layouts and parsed; a case is non-trivial when it declares at least one directive, distinct by its text",
        quick: 100000,
        thorough: 3000000,
        run: p_model::c02,
        after: None,
        must: &["directives compared", "plugins compared", "kind transaction", "kind custom"],
    },
    Prop {
        id: "C03",
        rule: "random directives on few dates, in one file or several; non-trivial when at least two directives tie in date and class, so that stability shows; distinct by text",
        quick: 40000,
        thorough: 1200000,
        run: p_model::c03,
        after: None,
        must: &["ties kept in declared order", "ledgers over several files"],
    },
    Prop {
        id: "C04",
        rule: "each ledger printed plainly and in a random layout, both parsed and compared value by value; non-trivial when the two texts differ; distinct by text",
        quick: 80000,
        thorough: 2500000,
        run: p_model::c04,
        after: None,
        must: &["with CRLF", "without final newline", "with headings", "with comments"],
    },
    Prop {
        id: "C06",
        rule: "random ledgers with the byte position of every element recorded while printing, then every span of the result resolved and compared; non-trivial when a directive stands after multi-byte text; distinct by text",
        quick: 80000,
        thorough: 2500000,
        run: p_model::c06,
        after: None,
        must: &["hundreds of files", "far into a large file", "spans resolved", "directives after multi-byte text", "ledgers over several files"],
    },
    Prop {
        id: "C05",
        rule: "random expression trees in every position that takes a number, numbers of up to 28 digits, options, and expressions without a value; non-trivial when an expression has an operator, or is wide or without value; distinct by expression",
        quick: 120000,
        thorough: 4000000,
        run: p_values::c05,
        after: None,
        must: &["numbers compared", "numbers of up to 28 digits compared", "expressions without value rejected", "numbers in options compared"],
    },
    Prop {
        id: "C10",
        rule: "random histories of pushes, pops and directives over one or several files, balanced or not; non-trivial when a directive carries something pushed, or something unbalanced is reported; distinct by text",
        quick: 60000,
        thorough: 2000000,
        run: p_values::c10,
        after: None,
        must: &["pushed many times over", "tags and keys in force from a push", "unbalanced pragmas reported", "ledgers over several files"],
    },
    Prop {
        id: "C13",
        rule: "every directive and plugin of a random ledger displayed, parsed again and compared; distinct by displayed text",
        quick: 40000,
        thorough: 1300000,
        run: p_values::c13,
        after: None,
        must: &["directives displayed and parsed back", "plugins displayed and parsed back", "kind transaction", "kind custom", "kind balance"],
    },
    Prop {
        id: "C17",
        rule: "random strings with escapes, line breaks and any characters in every position, strings around the configured line limit, and malformed strings; non-trivial when a string is not empty or is malformed; distinct by text",
        quick: 100000,
        thorough: 3000000,
        run: p_values::c17,
        after: None,
        must: &["strings compared", "limit changed along the way", "warnings for long strings", "strings within the limit", "malformed strings rejected", "strings one line over the limit"],
    },
    Prop {
        id: "C16",
        rule: "names of every kind (valid ones, valid ones with a change, and random ones over all of Unicode), each given to its constructor and written into a ledger; distinct by kind and name",
        quick: 400000,
        thorough: 12000000,
        run: p_names::c16,
        after: None,
        must: &["names in the sweep over all characters", "Currency accepted by constructor", "Currency refused by constructor", "Currency accepted in a ledger", "Currency refused in a ledger", "Sub accepted in a ledger", "Sub refused in a ledger", "Key accepted in a ledger", "Key refused in a ledger", "Tag accepted in a ledger", "Tag refused in a ledger", "Link accepted in a ledger", "Link refused in a ledger", "Type accepted in a ledger", "Type refused in a ledger", "flag letters accepted", "flag letters refused"],
    },
    Prop {
        id: "C21",
        rule: "a random ledger printed twice in different layouts and partly changed in one character or line, each directive, posting and plugin compared with every other of both by the library and by its observed values; non-trivial when the two texts differ; distinct by both texts",
        quick: 60000,
        thorough: 2000000,
        run: p_equal::c21,
        after: None,
        must: &["directives equal at different places", "different by one fact: transaction", "different by one fact: balance", "different by one fact: open", "different by one fact: price", "different by one fact: custom", "postings equal", "postings different", "names equal at different places", "plugins equal", "plugins different", "keys of one ledger looked up in another"],
    },
    Prop {
        id: "C22",
        rule: "any ledger (well-formed, malformed, over several files, not loading) taken from loading to dropping several times under a counting allocator, and parsed again and again on the same sources; distinct by text",
        quick: 16000,
        thorough: 600000,
        run: p_release::c22,
        after: None,
        must: &["rounds from loading to dropping", "rounds on the same sources", "with errors", "without errors", "not loaded", "ledger include graph", "ledger over several files", "ledger large", "ledgers never seen before"],
    },
    Prop {
        id: "C25",
        rule: "the errors of ledgers with one thing wrong at known bytes of a declaration name what that stands in: contexts in the same file, inner to outer, beginning where the posting, metadata or declaration begins; errors about something given before relate to the place where",
        quick: 40000,
        thorough: 800000,
        run: p_context::c25,
        after: None,
        must: &["not read: a link to nothing", "not read: not a text", "contexts compared", "alien character", "without a value", "given twice", "bad option", "in a posting", "in metadata", "in the metadata of a posting", "in a pragma", "ledgers over several files", "again: title", "again: operating_currency", "again: inferred_tolerance_default", "again: include", "again, over several files"],
    },
    Prop {
        id: "C26",
        rule: "any text, well formed or not, given to lex_with_source: tokens in order, apart, on characters of the text, with nothing between them but blank space, comments and ignored lines, and an end of line or indent where the text has one; non-trivial when there is a token; distinct by text",
        quick: 60000,
        thorough: 2000000,
        run: p_lex::c26,
        after: None,
        must: &["tokens placed", "of them not recognised", "indents drawn out", "gaps drawn out", "words drawn out"],
    },
    Prop {
        id: "C24",
        rule: "the reports of any ledger, and of an application's errors on its elements and on fragments, with and without annotations, written together, and to writers that take little, are interrupted or fail at a random byte; non-trivial when there are at least two; distinct by text",
        quick: 20000,
        thorough: 800000,
        run: p_write::c24,
        after: None,
        must: &["errors: reports written together", "warnings: reports written together", "with fragments: reports written together", "warnings with fragments: reports written together", "failing writers", "writers that fail once", "writers interrupted", "with annotations"],
    },
    Prop {
        id: "C18",
        rule: "random directives given a duplicated element of every kind at random places, or elements that merely look alike; distinct by text",
        quick: 80000,
        thorough: 2500000,
        run: p_names::c18,
        after: None,
        must: &["reported: tag twice on the first line", "reported: link on the first line and below", "reported: key twice", "reported: key twice on a posting", "reported: currency twice in an open", "reported: cost per unit twice", "reported: total cost twice", "reported: cost currency twice", "reported: cost date twice", "reported: cost label twice", "reported: cost merge twice", "accepted: on the directive and on each posting"],
    },
    Prop {
        id: "C07",
        rule: "random ledgers with one or several malformed parts (a list of about 170, and well-formed directives damaged at random), separated by well-formed directives, over one or several files; distinct by text",
        quick: 60000,
        thorough: 2000000,
        run: p_errors::c07,
        after: None,
        must: &["from the list", "alien character", "part taken out", "part too much", "two on one line", "two lines joined", "ledgers with several malformed parts", "ledgers with hundreds of malformed parts", "ledgers over several files"],
    },
    Prop {
        id: "C08",
        rule: "every error and warning of random ledgers, and errors an application builds on any element with random contexts, related elements and annotations, rendered and read back: title, position, source lines, labels at their lines, underline; distinct by ledger text",
        quick: 25000,
        thorough: 800000,
        run: p_report::c08,
        after: None,
        must: &["parser errors rendered", "parser warnings rendered", "application errors rendered", "application warnings rendered", "attachments rendered", "reports over several files", "annotations found", "underlines compared"],
    },
    Prop {
        id: "C15",
        rule: "random histories of fragment creation under several names over random real sources, every fragment resolved again and again, reports mixing both; distinct by history",
        quick: 30000,
        thorough: 1000000,
        run: p_report::c15,
        after: None,
        must: &["fragments resolved", "fragments after multi-byte text", "real spans resolved through synthetic sources", "reports on fragments", "reports on real elements", "real reports rendered alike", "hundreds of names", "large fragments"],
    },
    Prop {
        id: "C09",
        rule: "random include graphs (nested, repeated, cyclic, through links, patterns and odd spellings, with faults) generated in order of expansion; non-trivial when a file is included or an include fails; distinct by the text of all files",
        quick: 30000,
        thorough: 900000,
        run: p_files::c09,
        after: None,
        must: &["hundreds of files", "directives compared", "patterns of several files expanded", "included through a link", "included through a linked directory", "included by an absolute path", "included repeated in the same context", "reported: the root again", "reported: repeated in another context", "reported: missing", "reported: not text", "reported: bad pattern", "reported: a broken link", "reported: a directory", "compared with the same text in one file", "inline root"],
    },
    Prop {
        id: "C11",
        rule: "random histories of options (set, repeated, renamed, unknown, ill-formed) with accounts probing the type names in force, over one or several files; distinct by text",
        quick: 60000,
        thorough: 2000000,
        run: p_options::c11,
        after: None,
        must: &["single-valued options compared", "multi-valued options compared", "accounts compared", "types renamed", "reported: bad value", "reported: unknown option", "reported: given twice", "reported: name of another type", "reported: account of a type not in force", "reported: malformed line", "ledgers over several files"],
    },
    Prop {
        id: "C12",
        rule: "ledgers of every sort (well formed, malformed, mutated, include graphs with faults, noise) parsed repeatedly by one parser, by fresh ones, on clones, after others, in threads and in other processes, and the canonical dumps compared, reports included; distinct by the text of all files",
        quick: 16000,
        thorough: 500000,
        run: p_determinism::c12,
        after: None,
        must: &["equal when parsed again", "equal after parsing something else", "equal with a fresh parser", "equal on a clone of the sources", "equal when loaded again", "equal from a file and from a string", "equal in threads sharing a parser", "equal in threads sharing the sources", "equal in another process", "equal when the files are gone", "with errors", "without errors", "with warnings", "include graph"],
    },
    Prop {
        id: "C01",
        rule: "ledgers of every sort (well formed, malformed, mutated, faulty trees, noise) loaded, parsed, displayed, resolved and reported on, with any spans, writers and fragments; then every kind of content repeated many times in a process of its own; distinct by the text of all files",
        quick: 150000,
        thorough: 3000000,
        run: p_robust::c01,
        after: Some(p_robust::c01_after),
        must: &["parsed", "not parsed", "reports on any span rendered", "failing writers", "fragments created", "strings given to constructors", "families of repetition", "tokens at random", "proper lines, bent", "characters at random", "include graph, mutated", "large, mutated"],
    },
    Prop {
        id: "C14",
        rule: "ledgers of every sort loaded and parsed; every piece of text in the result located in memory relative to its resolved span, and looked at again after other parses, clones, fragments and threads; then the same and other monitors' workloads under AddressSanitizer and ThreadSanitizer; distinct by the text of all files",
        quick: 60000,
        thorough: 2000000,
        run: p_memory::c14,
        after: Some(p_memory::c14_after),
        must: &["borrowed: string", "borrowed: account", "borrowed: currency", "borrowed: key", "borrowed: tag", "borrowed: link", "borrowed: string value", "threads parsing while results were held", "cloned and dropped while results were held", "ledgers worked through under asan", "ledgers worked through under tsan"],
    },
    Prop {
        id: "C19",
        rule: "random include graphs with faults, links, patterns and files nobody asks for, each loaded, parsed and reported on in a process of its own under strace, every call between the marks judged; non-trivial with at least two files; distinct by the text of all files",
        quick: 4000,
        thorough: 60000,
        run: p_system::c19,
        after: None,
        must: &["files opened", "files left alone", "system calls seen while loading", "directories listed", "inline root", "ledgers over several files", "no root to load", "files near one that cannot be read"],
    },
    Prop {
        id: "C23",
        rule: "random include trees loaded and parsed in a process of its own while system calls on one of the files fail, fail late, are interrupted, or its content arrives through a pipe in pieces; distinct by the text of all files",
        quick: 1500,
        thorough: 60000,
        run: p_fault::c23,
        after: None,
        must: &["root not readable: reported by loading", "include not readable: reported at its line", "include not to be opened: reported at its line", "failed after the first read", "interrupted calls made again", "files arriving in pieces", "other errors still reported"],
    },
    Prop {
        id: "C20",
        rule: "any content (well formed, malformed, mutated, noise) repeated, loaded and parsed at two sizes a factor of eight apart, processor time, peak memory and allocations compared; then about ninety kinds of content and of file trees at 100,000 repetitions and an eighth of it, each in a process of its own; distinct by the content repeated",
        quick: 2400,
        thorough: 60000,
        run: p_cost::c20,
        after: Some(p_cost::c20_after),
        must: &["ledgers measured", "families measured", "a single line repeated"],
    },
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = PROPS.iter().find(|p| p.id == args[2]).expect("unknown property");
            sup::check(p)
        }
        Some("worker") => {
            let p = PROPS.iter().find(|p| p.id == args[2]).expect("unknown property");
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            sup::worker(
                p,
                WorkerArgs {
                    seed: n(3),
                    thorough: args[4] == "1",
                    k: n(5),
                    n: n(6),
                    cases: n(7),
                    deadline: args[8].parse().unwrap(),
                    dir: args[9].clone(),
                    only: args[10].parse().ok(),
                },
            )
        }
        Some("scale") => p_scale::child(&args[2], args[3].parse().unwrap(), args.get(4).map_or("", |s| s.as_str()), args.get(5).is_some_and(|s| s == "all")),
        Some("scale-list") => {
            for f in p_scale::FAMILIES {
                println!("{}", f.0);
            }
            0
        }
        Some("traced") => p_system::child(&args[2], &args[3], args[4] == "inline"),
        Some("faulted") => p_fault::child(&args[2]),
        Some("dump") => dump::main(&args[2]),
        Some("replay") => sup::replay(PROPS, &args[2]),
        _ => {
            eprintln!("usage: lima-monitor check <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
