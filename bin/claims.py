COMMON="Held on the executions observed in the run (counts in the evidence), nothing more. Trusts the harness's own model and printer, which share no code with the library. "
claimed={
"C02":("runtime monitor: reference-model oracle over parse results of random ledgers",COMMON+"Every field of every directive returned is compared with the model the text was printed from."),
"C03":("runtime monitor: order/permutation checker over uniquely tagged directives",COMMON+"Each directive carries a unique identity, so the returned order is compared exactly."),
"C04":("runtime monitor: metamorphic comparison of the same ledger in two layouts",COMMON+"The same model is printed plainly and in a random layout; the results must be equal."),
"C06":("runtime monitor: position oracle recorded while printing, against every resolved span",COMMON+"Every span reachable through the public interface is resolved and compared with the bytes, lines and file it was printed at."),
"C05":("runtime monitor: independent decimal evaluator against every expression value observed",COMMON+"Expressions are evaluated by the harness's own big-integer decimal arithmetic; every value and expression tree returned is compared with it, and expressions without a value must be errors."),
"C10":("runtime monitor: pragma-history interpreter against the tags and metadata observed on each directive",COMMON+"A reference interpreter of push/pop histories over include trees predicts tags and metadata of every directive and the place of every error."),
"C13":("runtime monitor: round-trip comparison of displayed text re-parsed",COMMON+"Displayed directives and plugins are parsed again and compared field for field."),
"C17":("runtime monitor: reference unescaper and line counter against string values and warnings observed",COMMON+"Strings in every position are compared with what was written; warnings are counted and placed."),
"C07":("runtime monitor: planted-defect oracle over error positions of corrupted ledgers",COMMON+"Malformed parts are planted between well-formed directives at known bytes; every error must lie in one, and each must have one."),
"C08":("runtime monitor: reader of rendered reports compared with an independent position and label oracle",COMMON+"Reports of parser and application errors are rendered and read back: severity, message, file, line, column, source lines, labels, underlines and annotations. Trusts that ariadne's layout stays readable by the monitor's reader."),
"C15":("runtime monitor: history checker over fragment creations, resolutions and reports",COMMON+"A shadow record of every fragment created predicts each resolution and report, interleaved with real spans."),
"C16":("runtime monitor: independent alphabet recognisers against constructors and parse results",COMMON+"Hand-written recognisers decide each string; constructors see all Unicode characters in each position."),
"C18":("runtime monitor: planted-duplicate oracle over error positions",COMMON+"Duplicates and look-alikes are planted at known bytes."),
"C09":("runtime monitor: include-graph interpreter against the directives, errors and sources observed",COMMON+"File trees are generated in order of expansion by a reference interpreter that predicts every directive and every error; most are compared with the same text in one file too."),
"C11":("runtime monitor: option-history interpreter against parsed options, accounts and errors observed",COMMON+"A reference interpreter of option histories predicts every option, account and error."),
"C12":("runtime monitor: comparison of canonical dumps of repeated, cloned, threaded and cross-process parses",COMMON+"Reports are rendered and compared too."),
"C01":("runtime monitor: crash, hang and resource watchdog over hostile inputs, in processes of their own",COMMON+"Panics, signals and endless loops of any call are observed by a supervisor; huge repetitive inputs run in separate processes. Very large arithmetic expressions, and very long strings of non-ASCII letters in a build without full optimisation, overflow the stack: known findings."),
"C19":("runtime monitor: system-call trace (strace) checked against the include graph",COMMON+"Every path, network and process call between the start of loading and the end of reporting is judged; the files are compared before and after."),
"C14":("runtime monitor: address provenance of every text returned, AddressSanitizer, ThreadSanitizer, Miri (thorough)",COMMON+"Each text returned is located in memory against its resolved span; the workloads of several monitors run under the sanitizers with nothing reported. Running out of stack is left to C01."),
"C20":("runtime monitor: processor time, peak memory and allocations at two sizes of the same content",COMMON+"Time is measured, so that only growth beyond two and a half times linear at the sizes used is seen, and only when it persists over repeated measurements."),
"C21":("runtime monitor: equality and hashing of the library against the values observed, over all pairs of two parses",COMMON+"Every pair of directives, postings, plugins and names of a ledger printed twice, partly changed, is compared by the library and by its observed values."),
"C22":("runtime monitor: counting allocator, open files and threads before and after rounds of work",COMMON+"Live bytes must come back exactly to what they were after the first round."),
"C23":("runtime monitor: fault injection into system calls (strace) and pipes, outcome judged against the include tree",COMMON+"Open and read calls on one file fail, fail late or are interrupted in a process of its own; where the fault has to show is predicted."),
"C24":("runtime monitor: recording writers that fail, take little or are interrupted",COMMON+"Bytes received are compared with each report written by itself."),
"C25":("runtime monitor: planted-defect oracle over the contexts and related places of each error",COMMON+"Defects are planted at known bytes of known lines of a declaration; what the error names is compared with where it stands. The ends of contexts are judged only where the parser stops at the defect."),
"C26":("runtime monitor: coverage of the text by its tokens, judged by an independent reader of lines",COMMON+"Every byte of the text must lie in a token or in what may be passed over. Carriage returns on their own ending a comment, and the end of a last line without a line break, are left open."),
}
