"""Hand-written parts of DESIGN.md; tools/mkdesign.py puts them together."""
HEAD = """\
# Deciding the properties of vanillaplusjs by generated-input search

vanillaplusjs builds a static site out of `src/`: pages, stylesheets, modules, images, constants and
external files go through handlers that are scheduled by a dependency graph over a pool of worker
processes; rebuilds are incremental ("hot"); `dev` watches and serves. Its promises are therefore about
*every site*, *every history of edits*, *every schedule*, *every crash point* and *every input text*.
The 78 tests of the repository build a few dozen fixed sites once each. All 29 properties of
`properties.jsonl` are decided with one family of technique: generated inputs, histories, schedules and
faults against an explicit oracle. None is not applicable.

## Machinery

* `bin/check <ID>` runs `vp/checks/<id>.py`. A check is a list of sub-checks, each a Hypothesis
  strategy (the case is plain JSON data) and a function that runs the case against the code in /repo's
  working tree and raises `Violation`. `vp/core.py` shards a sub-check over 8 forked workers, seeds
  Hypothesis from VERIF_SEED, shrinks failures, writes the smallest failing case as the replay file
  (`bin/check ID --replay FILE` runs only that), and writes the evidence (cases, distinct non-trivial
  cases, classes, samples). The number of cases is fixed and not time bound: a time budget that runs out
  makes the sub-check "inconclusive" and is not read as success or as an alarm.
* `vp/inline_executor.py` stands in for the process pool: tasks run in this process one at a time,
  arguments and results pickled as with the pool, and *the case* chooses which of the pending tasks runs
  next. A build of a small site takes about 5 ms instead of a second, and the schedule is part of the
  case (so it shrinks and replays). Several properties have a further `pool`/`workers` sub-check with
  real worker processes.
* Everything is driven through `vanillaplusjs.runners.*` (build, clean, init, dev, run) and the command
  line where possible. Checks judge sites that were built and not how the code is written; refactorings
  of internals do not matter. The few exceptions use documented units: the dependency graph (C23), the
  reader (C24), `cover_fit`/`yield_sizes` (C18), and, for C27, watchdog's event handler interface.
* `vp/sitegen.py` generates whole sites and edit histories (pages, partials, sheets with imports, icons
  and urls, modules, `images.json`, constants, assets, folders that become files and the reverse,
  renames, swaps, touches, unbuildable states, configuration changes, dev/prod). `Clock` decides the
  modification times of what is written: rising, falling (restored backups) or frozen (all edits within
  the same clock tick, only the inode tells them apart).
* `vp/sitecmp.py` makes the from-scratch reference: sources and configuration are copied to a new folder
  and built there. `vp/imgref.py` computes image products independently of the code (own crop, Pillow's
  resize and encoders, own rule of choice). `vp/cssref.py` is an independent CSS Syntax 3 tokenizer,
  `vp/jsoracle.js` wraps V8, the TypeScript parser and acorn, `vp/htmlgen.py` generates documents as
  trees together with varied notations of them.
* `vp/faults.py` intercepts the file system calls below the project folder: it can kill a build between
  any two of them, or in the middle of a write, and records what is touched.
* `vp/peer.py` runs builds in other interpreters (other hash seed, other working folder, real pool).
* All files live in a scratch folder below /dev/shm (`vp/scratch.py`), removed after each case. Deleting
  code under test only ever sees such folders.
* Listed findings: `KNOWN_FINDINGS.txt` (text), `known_findings/<ID>.json` (the failing cases, replayed
  on each run, printed as KNOWN-FINDING). `regress/<ID>.json`: shrunk failures of the past, replayed
  first on each run.
* `tools/mutate.py` is a mutation campaign: it makes random small changes to the code, keeps those the
  repository's tests do not notice, and runs the related checks on them; what no check notices was looked
  at by hand (see "Mutation campaign").
"""

# id: (how, oracle, beyond tests)
P = {
"C01": ("Histories of edits over generated sites with a build after each step, in one process or several, with chosen schedules, clocks that rise, fall or stand still, switches of dev/prod and configuration, folders and files changing places. `images` adds real images and image settings; `settings`/`image settings` concentrate on configuration changes; `shared icons`: many sheets and pages sharing generated icons while the references between them change direction and come and go.",
 "Differential: after each build, `out/www` is compared byte for byte with a from-scratch build of a copy of the sources; image numbers are abstracted; artifacts and hash files without a source are leftovers.",
 "tests never rebuild after an edit; which pairs of edits leave something stale depends on the whole history."),
"C02": ("The same histories, concentrated on builds with nothing changed and on edits whose consumers are known (`graphs`: generated reference graphs).",
 "Snapshot of (inode, mtime_ns, content) of all files of out/www and artifacts before and after; a file may only be touched when the reference model's transitive dependents of the edit contain its source.",
 "needs arbitrary reference graphs and edits; tests have no rebuild at all."),
"C03": ("Histories (as C01) and `deep` chains and diamonds of links where the changed file is far from the link; large files; schedules vary.",
 "Invariant over the built tree: each rewritten link found in pages, sheets and modules by independent parsers is `path?v=sha256(bytes)&pv=version`, also of the hash file.",
 "a stale digest only shows up after particular orders of rebuilds in multi-level graphs."),
"C04": ("`unsound`: histories in which builds fail (missing references, malformed files, cycles, unreadable images) and are followed by repairs. `killed`: the build is killed at a generated point: before the n-th file system operation, or in the middle of a write (also aimed at the build's own records); then more edits, sometimes before anything is built again, and builds. `images`/`exports`: the same with image files, aimed at the artifacts, locks and published images.",
 "The next build of buildable sources has to succeed and equal the from-scratch build; a failing one has to report the failure.",
 "crash points are enumerated by the fault injector, hundreds per build; tests have none."),
"C05": ("A generated site is built twice with different schedules, folder names, listing orders (shuffled os.scandir/listdir/walk), relative or absolute project paths, symlinks or copies, hash seeds (peer interpreters) and with `out/` removed in between; `pool`: real worker processes.",
 "Metamorphic: byte-identical trees.",
 "order dependence only shows under schedules and hash seeds that the tests never vary."),
"C06": ("Histories of builds, failing builds, edits, cleans (with and without placeholders) and inits, with user files at every place, including files named like products and placeholders edited by the user.",
 "Snapshot of everything outside out/ and artifacts/, with a model of which placeholders have been generated.",
 "the set of files a build may touch is a frame condition over any project."),
"C07": ("One to three modules from a grammar of statements and expressions with all literal forms, divisions and regular expressions in all the places where they are hard to tell apart, nested templates, comments and line breaks between any two tokens.",
 "V8 must accept the output as a module, and the TypeScript parser must give the source's syntax tree (template text raw, with directive text raw), acorn decides where TypeScript's own scanner errs.",
 "the tokenizer has to decide regex/division and template nesting for every program."),
"C08": ("Modules in which lines carry type-hint comments at any place of the line, and near misses (in strings, templates, regular expressions, longer comments).",
 "The syntax tree of the source with its marked lines emptied.",
 "line structure, strings and comments interact."),
"C09": ("Sites of modules in nested folders; import statements of every form with all permitted gaps and escapes, among lookalikes.",
 "Own resolution of the specifiers; specifiers of the output are read by acorn; the rest of the tree must be equal.",
 "forms x gaps x paths is too large to sample by hand."),
"C10": ("Stylesheets out of a grammar of rules and at-rules and out of valid token soups, with escapes, number forms, comments and white space anywhere.",
 "Token by token comparison under the independent tokenizer `vp/cssref.py` (CSS Syntax 3).",
 "tokens that run together or lose escapes depend on adjacent pairs."),
"C11": ("Sheets with url()s in all notations that name site files (also with dot segments), foreign targets and data URIs next to lookalikes.",
 "The expected token sequence computed from the model; generated images compared with the decoded data.",
 "notation x kind of url."),
"C12": ("One to three sheets of rules which import each other in any order and nesting, in at-rules, with errors (missing rule, missing file, cycle).",
 "A recursive reference expansion on token level.",
 "rule positions and nested imports interact (offset bookkeeping)."),
"C13": ("A main sheet defining colors and sizes in every notation, svg icons with varied writing of the initial color, icon commands of all options in any sheet.",
 "Own computation of classes, boxes, buttons and of the recolored svg.",
 "colors x sizes x options x notations."),
"C14": ("Whole pages as trees over all content categories, svg/mathml, raw text, templates, comments, doctypes, written in varied notation.",
 "html5lib parse of the built page must be the generated tree with the documented rewrites. `missing`: links to missing files fail the build.",
 "serialisation must be right for every tree."),
"C15": ("Pages with inline scripts and styles (with the attributes of both the block and its outlined element) at every permitted place, several pages and a partial, schedules; `pool`.",
 "The tree with references in place; files distinct; contents byte for byte what a file of its own with that content builds to.",
 "numbering of blocks over pages and schedules."),
"C16": ("Partials and pages with template/stack commands at every permitted place, arguments of every kind, recursion, edits of partials.",
 "A model interpreter that expands the trees.",
 "variable scoping over nested expansions."),
"C17": ("Pages at various depths with canonical links, og:url metas and lookalikes, all kinds of values, with and without a host.",
 "urllib-style resolution against the page's full url, in the model.",
 "value forms x depth x host."),
"C18": ("cover_fit over random sizes, pre-crops and percentages, biased to near-equal ratios and extremes; yield_sizes against an enumeration.",
 "The inequalities of the statement in exact rational arithmetic.",
 "rounding errors show at one size in thousands."),
"C19": ("Projects with random images (sizes, modes, formats, contents), image settings (formats, exports with area limits, preferences, unit sizes, steps) and pages with commands; `malformed` commands; `workers`: real processes.",
 "Files computed anew by `vp/imgref.py`; picture element checked for sizes, choice, loading mode, urls.",
 "the choice rule needs file sizes of all exports."),
"C20": ("Histories of edits of images, pages, a partial, images.json and settings with builds in between, losing out/ or artifacts; `workers`.",
 "The same computation, plus sharing: same (image, settings) iff same files; unchanged files are not rewritten.",
 "reuse and reservation of folders depends on the history and on the order of commands."),
"C21": ("Histories over images.json (valid and invalid), images, importing modules, placeholders and configuration.",
 "Node runs the built module; exports are compared with own computations and with page commands of the same settings.",
 "json forms x histories."),
"C22": ("Constant tables of nested values and any strings; histories of modes, tables, environments and source edits.",
 "Node imports the built module; values compared by JSON with the table.",
 "string escapes; mode switches without any other change."),
"C23": ("Sequences of operations over few paths (`ops`), edge insertions over up to 40 (`shape`), and chains, stars and combs of thousands (`long`).",
 "A dict model, compared after each operation; networkx-free reachability.",
 "cycle prevention must be exact for every graph."),
"C24": ("Texts of newline variants, surrogates and astral characters; plain and preprocessed readers; peek/read sequences; files read in small pieces.",
 "Slicing of the normalised text.",
 "sequences split over buffer borders."),
"C25": ("Sequences of configurations, local edits, server behaviours (wrong content, errors, truncation, gzip, redirects, slow, contents of several read buffers) and builds against a loopback server; `pool`.",
 "A model of which files must be there with which content and which requests may be made.",
 "faults at any point of a sequence."),
"C26": ("Folders holding anything the assumptions allow, sequences of init, edits, removals and builds.",
 "Snapshots, the documented layout, and a build.",
 "pre-existing content in any combination."),
"C27": ("`events`: edits with the events watchdog's inotify emitter gives for them (calibrated against the real emitter), delivered while idle or in the middle of a rebuild as the script says; `watch`: the real watcher and real file system events; `images`: with image files.",
 "After settling: equal to a from-scratch dev build; counts of rebuilds for the no-repetition clause.",
 "interleavings of events and rebuilds."),
"C28": ("Reference graphs over all kinds of references, with schedules, edits that add and remove cycles and dangling links; `pool`; `command`: the command line with a time limit.",
 "A model of cycles and missing targets says whether the build must succeed; the order is judged by the digests in the outputs.",
 "graphs x schedules."),
"C29": ("Generated served trees with histories; all files, folders and odd paths requested over the loopback; `command`: the real commands; `busy`: port in use.",
 "Bytes on disk, content type by extension; a secret outside of the folder must never show up.",
 "odd paths, changes under a running server."),
}

FALSE_ALARMS = """\
## False alarms met while building, and what was done

Each of these was the check's or the statement's fault and was corrected there; none is listed as a finding.

* C03/C14: a stylesheet's `url()` to itself cannot carry its own digest; css escapes have to be decoded
  before links are compared; a path spelled with dot segments names the same file.
* C05: a site without sources makes no `out/` at all; image variants are numbered by arrival, so numbers
  are abstracted where the artifacts differ.
* C06: switching the placeholder option does not create placeholders for unchanged files; what clean does
  to placeholders that the user took over is left open.
* C07: raw text of templates is compared after CRLF normalisation, directives by raw text, and
  TypeScript's scanner misreads `</` after some tokens (acorn decides then).
* C08: lines that start with a slash around a marked line may join with it in legal ways; a marked line
  inside a statement of several lines whose tokens span lines is out of scope.
* C10: the reference tokenizer's exact numbers overflowed for huge exponents (a crash of the check, no
  alarm); they are fractions of any size now. Site urls are excluded (C11's subject). C11: six digit escapes followed by white space.
* C13: an svg has one initial color (documented), so all commands for an icon use the same one; boolean
  attributes compare by presence (C14).
* C14: html5lib does not skip the newline after `<pre>`/`<textarea>` within table cells when parsing;
  the generator avoids it there.
* C17/C14: values with percent escapes are left out. C18: repeated sizes are skipped by intent.
* C19: image files without extension clash with their product folder; the order of the sources within a
  picture and the type attribute are unspecified.
* C20: a lost `counter.txt` or `placeholder.json` is not promised to be survived with the same numbers;
  the order of the settings matters to reuse.
* C21: "raw invalid json" generator produced crops that were valid for taller images.
* C22: Hypothesis harvests string constants from local code, also from /repo, so "env://" came up as a
  "random" string constant naming an unset variable; env references are now generated on purpose only.
  (For the same reason the random streams depend on the text of /repo; all checks are soaked over many
  seeds so as not to depend on one stream.)
* C25: a truncated gzip that still decodes to the full declared content is the right content.
* C27: the configuration is not watched; a watched folder's own property changes are not edits.
* C28: a stylesheet that refers to itself is no cycle.
* C29: builds of the harness must not run from a working folder that was deleted (detecting symlink
  support writes a file in the working folder).
"""

LIMITS = """\
## Limits

* Random search: "held on everything explored". The evidence says how many cases were run.
* Kill points are those between file system operations and inside writes; no reordering of writes.
* Real worker processes and the real watcher are used in smaller numbers; most schedules are explored
  with the in-process executor, which runs tasks one at a time (it permutes the order of whole tasks and
  not interleavings within them; the `pool`/`workers` sub-checks cover true concurrency by chance).
* A page that preloads an icon which its own inline style makes (a page depending on its own product) is
  not generated; the documentation gives no answer there.
* Pillow is trusted to resize and encode; html5lib, V8, acorn and the TypeScript parser to parse.
"""
