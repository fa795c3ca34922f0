#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["vanillaplusjs/"+f for f in files],
            state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))

B="build/"
prop("C01","Incremental builds equal a from-scratch build",
 "After any history of source edits (adding, changing, deleting, renaming or touching files of any kind, switching between dev and prod mode, changing the configuration, with a build after each step), the served tree under out/www is the same set of files with the same bytes as a from-scratch build of the final sources gives (up to the numbers in the paths of generated image variants, which may come from the history), and the artifacts folder holds nothing that only deleted or changed sources needed. A source file that is gone leaves nothing behind in out/www.",
 ["histories","inputs"],"every sequence of source-tree edits and builds over sites mixing html, css, js, partials, images, image-json, constants and plain files",
 "The tests build at most twice, with one edit in between; which files a build must redo depends on the whole dependency graph and on the history that left the stored graphs.",
 [B+"hot_incremental_rebuild.py",B+"cold_incremental_rebuild.py",B+"graph.py","runners/build.py",B+"handlers/image_glue.py"],
 [("changed/added/deleted detection by file signature",B+"cold_incremental_rebuild.py cold_incremental_rebuild"),("transitive parents rebuilt, dirty outputs removed, new graphs stored",B+"hot_incremental_rebuild.py hot_incremental_rebuild")],
 [("dependency/output/placeholder graphs","what each source depends on and produced","out/*.json")],
 ["out/www","artifacts"])
prop("C02","A rebuild touches only what an edit can affect",
 "A build with nothing changed since the last one rewrites, creates and removes no file under out/www or artifacts. After an edit to some source files, a rebuild leaves every output alone whose source neither changed nor depends, directly or transitively, on an edited, added or removed file.",
 ["histories"],"every site, every single or multi-file edit, every rebuild",
 "One test checks the modification time of one html file over one no-op rebuild; nothing samples which outputs a real edit may touch.",
 [B+"cold_incremental_rebuild.py",B+"hot_incremental_rebuild.py",B+"file_signature.py"],
 [("signature comparison",B+"file_signature.py"),("rebuild set = changed files and their transitive parents",B+"hot_incremental_rebuild.py")],(),["modification time and inode of files under out/www and artifacts"])
prop("C03","Cache-busting links carry the digest of what is served",
 "In every built site, each rewritten link from a page, stylesheet, inline script or module import to a site file has the form path?v=<digest>&pv=<processor version>, where the digest is the URL-safe base64 SHA-256 of the bytes served at that path and the hash file beside that output says the same. So whenever the served bytes of a file change, the links to it change in everything that links to it, and in turn the digests of those files.",
 ["inputs","histories"],"every site (link graph, file kinds, nesting depth) and every edit that changes a file deep in the graph",
 "The tests compare a few fixed two-file sites; a stale digest depends on build order, on depth of the link chain and on what was already built.",
 [B+"handlers/hash.py",B+"html/manips/link_hash.py",B+"css/manips/version_urls.py",B+"js/manips/hash_imports.py",B+"html/manips/outline.py"],
 [("digest written next to each output",B+"handlers/hash.py build_file"),("dependencies are built before dependents",B+"hot_incremental_rebuild.py")],(),["out/www"])
prop("C04","A failed or interrupted build never poisons the next one",
 "If a build fails (a source refers to something missing, is malformed, or a cycle exists) or is killed at any point, then a later build over sources that are buildable succeeds and gives the same served tree as a from-scratch build. A failing build reports the failure to its caller instead of claiming success.",
 ["crash_points","fault_sequences","histories"],"every edit history in which some builds fail on bad sources, and every point at which a build is killed between its filesystem operations",
 "No test builds a broken site and then a repaired one, and none interrupts a build; the state left behind is different for each crash point.",
 [B+"hot_incremental_rebuild.py",B+"cold_incremental_rebuild.py","runners/build.py",B+"handlers/hash.py",B+"handlers/js_constants.py"],
 [("graphs are only stored once everything was rebuilt",B+"hot_incremental_rebuild.py"),("outputs of files to rebuild are removed first",B+"hot_incremental_rebuild.py")],
 (),["out/www after the repairing build","exit status / exception of the failing build"])
prop("C05","Builds are reproducible",
 "Two from-scratch builds of the same sources and configuration give byte-identical served trees and artifacts (up to which number an image variant gets), whatever folder the project is in, whatever order the directory is listed in or workers finish in, and whether unprocessed files are linked or copied. Building again after removing out/ while keeping artifacts/ gives the same result too.",
 ["configurations","schedules","inputs"],"every site, project location, worker completion order, link/copy mode and hash seed",
 "Tests build each site once in one fixed folder with one configuration.",
 [B+"handlers/copy.py",B+"hot_incremental_rebuild.py",B+"html/manips/images/exporter.py",B+"html/manips/images/metadata.py",B+"build_context.py"],
 [("outputs depend only on source bytes and configuration",B+"build_file.py")],(),["out/www","artifacts"])
prop("C06","Building never alters sources; cleaning removes only products",
 "A build never modifies, deletes or leaves behind anything in the project outside out/ and artifacts/, except that it creates a missing type-hint placeholder for a new or changed image-json file when that is enabled, and it never overwrites a placeholder that exists. Clean removes out/ and artifacts/ completely and, only when asked, exactly the placeholders that builds generated since the last clean; every other file is left as it was.",
 ["inputs","histories","configurations"],"every site and every sequence of init, build, edit and clean",
 "Tests check that two specific folders vanish for one site; they do not compare the sources before and after builds of varied sites.",
 ["runners/clean.py","runners/build.py",B+"html/manips/outline.py",B+"hot_incremental_rebuild.py",B+"handlers/image_glue.py"],
 [("temporary outline files are removed again",B+"html/manips/outline.py"),("placeholder graph",B+"hot_incremental_rebuild.py"),("clean","runners/clean.py clean")],(),["project tree before and after"])
prop("C07","Javascript keeps its meaning",
 "For every valid javascript module without type-hint marks, the built file is a valid module that parses to the same program as the source (same statements, identifiers, operators, literals with the same values, same regular expressions), except that import paths of site files become versioned absolute paths. Comments stay comments, and line structure is kept so that automatic semicolon insertion gives the same program.",
 ["programs","inputs"],"every valid ES module: strings, escapes, templates, regular expressions, division, comments, unicode, newlines",
 "Tests compare a handful of fixed snippets; the tokenizer classifies text by context, so meaning can change on inputs no snippet contains.",
 [B+"js/tokenizer.py",B+"js/serializer.py",B+"js/builder.py",B+"js/manipulate_and_serialize.py",B+"css/serializer.py",B+"ioutil.py"],
 [("tokenize/serialize round trip",B+"js/tokenizer.py, "+B+"js/serializer.py")],(),["out/www/**/*.js"])
prop("C08","Type-hint lines vanish from the program, and only those",
 "A source line containing a comment that consists exactly of the type-hint mark (apart from surrounding white space) contributes no code to the built module, however the line is written, including with other comments or strings on it, and as first or last line of the file. Every other line is kept as code.",
 ["programs","inputs"],"every module and every placement of marked and near-miss comments",
 "One test has one marked line; where the mark stands on the line and what else is on it vary without bound.",
 [B+"js/manips/type_hints.py",B+"js/yield_manipulator.py",B+"js/builder.py",B+"js/serializer.py"],
 [("line-wise comment-out",B+"js/manips/type_hints.py handle")],(),["out/www/**/*.js"])
prop("C09","Module imports resolve to the same file, versioned",
 "Each static import of a site file (absolute, ./ or ../ path; side-effect, default, namespace, named, aliased or mixed form, any spacing and comments the form permits) is rewritten to the absolute path of the very file the original specifier resolves to, with that file's digest, and the imported bindings stay as they are. Imports of anything else (bare specifiers, full URLs, paths with a query, dynamic imports) keep their specifier, and imports marked to be ignored are left alone.",
 ["programs","inputs"],"every module graph layout and every import form",
 "One test covers one import form with one path; forms, nesting of folders and neighbouring code multiply.",
 [B+"js/manips/hash_imports.py",B+"js/yield_manipulator.py",B+"handlers/js.py"],
 [("import recogniser and path resolution",B+"js/manips/hash_imports.py")],(),["out/www/**/*.js"])
prop("C10","Stylesheets keep their meaning",
 "For every valid stylesheet, the built file has the same sequence of CSS tokens as the source (identifiers, functions, at-keywords, hashes, strings, numbers, percentages, dimensions, urls, delimiters and punctuation with the same values, unquoted url or quoted), except for the documented rewrites of site urls, image data urls and preprocessor comments. Comments are kept and no two tokens run together or get split.",
 ["inputs","programs"],"every stylesheet over the CSS syntax: escapes, unicode, numbers in any notation, strings, urls, comments, unusual punctuation",
 "No test compares tokens; the css tests use a few plain rules with expected text.",
 [B+"css/tokenizer.py",B+"css/serializer.py",B+"css/builder.py",B+"css/manipulate_and_serialize.py",B+"ioutil.py"],
 [("tokenize/serialize round trip",B+"css/tokenizer.py, "+B+"css/serializer.py")],(),["out/www/**/*.css"])
prop("C11","Stylesheet urls are versioned, inlined images are outlined",
 "In a built stylesheet every url() to an existing file of the site (absolute path, no query) carries that file's digest, and every other url is left as it was; a stylesheet's url to itself may stay without a digest. Every image given in url() as a data URI is replaced by a versioned url of a file of the matching type that holds exactly the decoded image, and no image data URI remains.",
 ["inputs","programs"],"every stylesheet mixing quoted and unquoted urls, data URIs (percent-encoded or base64, any image type, repeated within and across files)",
 "One test has one svg data URI and no test covers base64, several formats, repeats or shared outputs.",
 [B+"css/manips/version_urls.py",B+"css/manips/outline_image_data.py",B+"handlers/css.py"],
 [("data URI outlining",B+"css/manips/outline_image_data.py"),("url versioning",B+"css/manips/version_urls.py")],(),["out/www/**/*.css","out/www/img"])
prop("C12","CSS rule imports insert the imported declarations",
 "An import preprocessor comment inside a rule is replaced by the declarations of the named rule (named by its selector text, standing once in its stylesheet) from the named stylesheet (the default stylesheet when none is named), with nested imports expanded, wherever the rules stand and however many rules use it; declarations outside imports are kept in order. An import that names a missing rule or file, or that is circular, fails the build.",
 ["programs","inputs"],"every set of stylesheets and every acyclic or cyclic import structure among their rules",
 "Six fixed examples; order of definition, depth, repetition and cross-file chains are unbounded.",
 [B+"css/manips/nest.py"],[("rule import state machine",B+"css/manips/nest.py NestManipulator")],(),["out/www/**/*.css"])
prop("C13","Icon commands generate the documented classes and images",
 "An icon command yields, for exactly the selected colors and sizes, one class per combination whose background is the versioned svg recolored from the initial color to the chosen color and whose box has the chosen size, plus one button class per size unless suppressed or customised as the command says (for button settings whose colors are all defined). Every svg url it refers to exists with the initial color fully replaced, and the rest of the stylesheet is unchanged. Colors and sizes are those of the first :root rule of the default stylesheet, as hex or named colors; a command that does not apply stays a comment.",
 ["inputs","configurations"],"every icon settings block, svg, color/size selection and button style",
 "Six fixed commands with two colors; the cross product of color notations, selections, style overrides and rebuilds is not sampled.",
 [B+"css/manips/icons/manip.py",B+"css/manips/icons/settings.py",B+"css/manips/icons/parser.py",B+"css/manips/icons/tokenizer.py",B+"css/manips/icons/color.py"],
 [("icon command parser and generator",B+"css/manips/icons/")],(),["out/www/**/*.css","out/www/img/icons"])
prop("C14","HTML documents are preserved except for documented rewrites",
 "A built page parses to the same document as its source (elements, nesting, attributes with values, text, comments, doctype) apart from the documented rewrites: versioned link (rel stylesheet or preload), script urls, canonical urls, images, outlined scripts and styles, and templates, and a charset declaration that is added where there is none. Only links to existing site files given as absolute path without query or fragment are versioned, keeping every other attribute.",
 ["inputs"],"every well-formed page, attribute set, text with entities or unicode, and link",
 "Three html5lib tests copy one small document; attribute values, raw text, entities, void elements and whitespace are not varied.",
 [B+"html/tokenizer.py",B+"html/builder.py",B+"html/manipulate_and_serialize.py",B+"html/manips/link_hash.py",B+"handlers/html.py"],
 [("tokenize, manipulate, serialize",B+"html/manipulate_and_serialize.py"),("link hashing",B+"html/manips/link_hash.py")],(),["out/www/**/*.html"])
prop("C15","No inline script or style survives, and none is lost",
 "A built page contains no inline script or style content (outside of inline svg): each one is replaced in place by a script or stylesheet reference that keeps the element's other attributes and points, with digest, to a file of its own holding the processed content. Each inline block of each page gets its own file, whatever the number and order of blocks and pages, and the content undergoes the same processing as a file of its kind (site urls in it given as absolute paths).",
 ["inputs","programs"],"every page with any number of inline scripts and styles, attributes and nested folders",
 "Three tests with a single block each; numbering, attributes and several pages building at once are not covered.",
 [B+"html/manips/outline.py"],[("outlining through temporary sources",B+"html/manips/outline.py OutlineManipulator")],(),["out/www/**/*.html","out/www/js/gen","out/www/css/gen"])
prop("C16","Templates expand to the partial's content with scoped variables",
 "A page with template and stack commands builds to the page that results from substituting each template command by the expanded content of its partial, with each retrieve yielding the value its variable has at that point (the arguments of the template command, which are all a partial sees of its surroundings, and defined, pushed and popped values, restored after the template). A retrieve of an undefined variable or a missing partial fails the build, and a changed partial changes every page using it.",
 ["programs","inputs"],"every nesting of templates, variables and stack operations",
 "One fixed example; scoping rules only show with nesting, shadowing and repetition.",
 [B+"html/manips/template.py"],[("template frames and stack",B+"html/manips/template.py TemplateManipulator")],(),["out/www/**/*.html"])
prop("C17","Canonical links and og:url become full URLs of the page",
 "A canonical link or og:url meta tag without a value becomes https://<host>/<path of the page>, one with a relative value the full URL that it resolves to on the page's own full URL (in particular https://<host><value> for an absolute path), and one with a full URL is left alone; all other attributes and all other tags are untouched. Without a configured host (null) such a page fails to build rather than getting a wrong URL.",
 ["inputs","configurations"],"every host, page path, attribute order and value",
 "Seven fixed pages.",
 [B+"html/manips/link_rel_canonical.py"],[("canonical rewriting",B+"html/manips/link_rel_canonical.py")],(),["out/www/**/*.html"])
prop("C18","Cover-fit cropping has the right geometry",
 "For every source size, target size, pre-crop and crop percentages, the cover-fit crop keeps within the pre-cropped source, matches the target's aspect ratio to within a pixel, uses the full pre-cropped extent in at least one dimension, never upscales a target that is no larger than the pre-cropped source, and distributes the excess between the sides by the requested percentages; requests that leave nothing of the source are rejected. The generated sizes start with the requested one, are the requested size times 1, 1+step, 1+2*step and so on, cut to whole pixels, rise strictly (resolutions that give the same size again are left out), and never exceed the source or the configured maximum resolution.",
 ["inputs","configurations"],"every combination of source and target size, crop arguments, step and maximum resolution",
 "One image with one crop; rounding cases appear only for particular sizes.",
 [B+"html/manips/images/cover_fit.py",B+"html/manips/images/resolutions.py",B+"html/manips/images/command.py"],
 [("cover_fit arithmetic",B+"html/manips/images/cover_fit.py"),("resolution sequence",B+"html/manips/images/resolutions.py")],(),["pixels of generated images"])
prop("C19","Image commands yield a correct picture element and files",
 "An image command whose image exists and is large enough is replaced by a picture element whose img has the requested width, height and loading mode and which lists, for every configured format with applicable exports, one file per size with its true pixel width; every listed file exists, has the stated pixel size and format, shows the requested crop of the source, and is the one the configured rules choose: of the exports applicable to the area, the one with the lowest max(file size, minimum unit size) divided by preference, the first one among equals. The img itself offers the default format, its src in the requested size. A command whose image is missing, unreadable, outside of the public folder or too small stays the comment it is, a malformed command fails the build, and so does one without any applicable export in the default format.",
 ["inputs","configurations"],"every source image, command and export configuration",
 "One image and one configuration; export choice depends on measured file sizes and areas.",
 [B+"html/manips/images/manip.py",B+"html/manips/images/exporter.py",B+"html/manips/images/command.py",B+"html/manips/images/settings.py",B+"html/manips/images/resolutions.py"],
 [("export and choice",B+"html/manips/images/exporter.py"),("picture markup",B+"html/manips/images/manip.py")],(),["out/www/**/*.html","out/www/img"])
prop("C20","Image products are shared, reused and never mixed up",
 "Two image commands, in pages, partials or image-json files, share produced files exactly when source image and settings agree, and commands that differ in source or any setting never get each other's files, in any order of commands, pages, edits and rebuilds. A rebuild with unchanged image, settings and existing artifacts, also after removing out/, reuses them unchanged, while a changed source image or changed image configuration leads to products of the new content.",
 ["histories","inputs","schedules"],"every history of image commands, source image edits and rebuilds, with commands in several pages processed at once",
 "Tests rebuild one page with one image; the index of settings to folders only matters with many commands over time.",
 [B+"html/manips/images/metadata.py",B+"html/manips/images/exporter.py",B+"html/manips/images/settings.py"],
 [("settings hash and folder reservation",B+"html/manips/images/metadata.py")],
 [("artifact index","settings to folder mapping per source image","artifacts/**/placeholder.json, counter.txt")],["artifacts","out/www/img"])
prop("C21","Image-json files build to a module describing the same images",
 "For every valid image-json file the built module exports, under each name, the requested settings and the list of produced files per format with true sizes, the chosen export and working urls, the same products an image command with the same settings gives; it can be imported from other modules and is rebuilt when the json or an image changes. From an invalid one (not an object, or an entry that is malformed or cannot be satisfied) no module is built. The placeholder next to it is generated only when missing and enabled, and never affects the built module.",
 ["inputs","histories"],"every image-json content and every history of edits",
 "Two fixed json files.",
 [B+"handlers/image_glue.py",B+"html/manips/images/metadata.py"],[("json to module",B+"handlers/image_glue.py")],(),["out/www/**/*.images.js"])
prop("C22","The constants module exports the configured values",
 "The built constants file is a valid module that exports exactly the configured names (valid identifiers), each with the configured value (strings of any content, numbers, booleans, null, nested lists and objects), where dev or prod values override shared ones according to the build mode and environment references (at the top level) are replaced by the environment's value. What the source file contains never matters, and switching mode or changing the configuration on an existing build updates the module and everything that imports it.",
 ["configurations","inputs","histories"],"every constants table, mode and sequence of mode switches",
 "No stable test evaluates the module for varied values, and none switches modes.",
 [B+"handlers/js_constants.py",B+"build_context.py",B+"hot_incremental_rebuild.py"],[("constant serialization",B+"handlers/js_constants.py jsify"),("mode marker","out/js_constants_mode.txt")],(),["out/www/js/constants.js"])
prop("C23","The dependency graph behaves as a directed graph",
 "Under every sequence of adding and removing files and setting children, the dependency graph answers membership, children, parents, signature and direct or nested relationship queries as a plain directed graph would, keeps parent and child links consistent, and with cycle prevention rejects exactly those updates that would create a cycle, leaving the graph unchanged. Storing and loading gives an equal graph, and graphs differing in files, signatures or relations compare unequal.",
 ["histories","inputs"],"every sequence of graph operations, including cyclic graphs",
 "Twenty hand-written graphs of up to four nodes.",
 [B+"graph.py"],[("adjacency kept in both directions",B+"graph.py FileDependencyGraph")],[("nodes","path to signature, parents, children",B+"graph.py")],["public methods, stored json"])
prop("C24","The lookahead reader delivers exactly the file's characters",
 "Whatever sequence of peeks and reads of any sizes is made, the reader delivers each character of the text once and in order, peeking consumes nothing and shows what the next read returns, and the end is reported only at the end. With preprocessing, exactly the documented normalisation (newlines, surrogates) is applied, also when a sequence is split over reads.",
 ["histories","inputs"],"every text, operation sequence and chunking",
 "No test covers the reader; splits of two-character newlines over buffer boundaries never occur in the sample files.",
 [B+"ioutil.py"],[("buffer and normalisation",B+"ioutil.py PeekableTextIO, PreprocessedTextIO")],(),["peek and read results"])
prop("C25","External files are installed only with the declared digest",
 "After a successful build every configured external file is present with content matching its declared integrity, downloaded only if it was missing or did not match; content that fails the integrity check or a failing download never replaces or becomes the file and fails the build, leaving no temporary files. Files dropped from the configuration since an earlier successful build are removed once (unless out/ was cleaned meanwhile), and later builds keep working through any sequence of configuration changes, tampering and server faults.",
 ["histories","fault_sequences","configurations"],"every sequence of configuration changes, local tampering, and server behaviours (right content, wrong content, errors, short reads)",
 "The only tests need the network and are not in the stable set.",
 [B+"cold_incremental_rebuild.py",B+"build_context.py"],[("integrity check before install",B+"cold_incremental_rebuild.py handle_external_file"),("state file","out/external_files_state.json")],(),["project files, requests made to the server"])
prop("C26","Init completes a project and never overwrites anything",
 "Running init on any folder, as long as nothing stands in the way of the folders it creates and an existing configuration is valid, yields a project that builds, with the configuration and folder layout documented, and leaves every file that already existed unchanged; running it again changes nothing. The written configuration loads to the documented defaults with the given host.",
 ["histories","configurations"],"every pre-existing folder content, host and number of runs",
 "Tests run init once in an empty folder.",
 ["runners/init.py",B+"build_context.py",B+"html/manips/images/settings.py"],[("existence checks before every write","runners/init.py init")],(),["project tree"])
prop("C27","Watch mode ends up with the same site as a fresh dev build",
 "After any sequence of file events (created, modified, deleted, moved, in any multiplicity the file system produces for a series of edits, arriving while idle or during a rebuild), once the events have settled and sources are buildable the served tree equals a from-scratch dev build of the sources; this includes edits made while the first build runs, if it succeeds. (The configuration file is not watched: a change of it applies with the next event.) A rebuild that fails is not repeated until something changes, and its pending changes are not lost.",
 ["histories","schedules"],"every sequence of edits and every grouping of their events into rebuilds, with failing builds in between",
 "No test covers the watcher.",
 ["runners/dev.py",B+"hot_incremental_rebuild.py"],[("event coalescing","runners/dev.py DevEventHandler")],[("pending sets","changed, created and deleted files awaiting a rebuild","runners/dev.py")],["out/www"])
prop("C28","Dependency order is respected; cycles fail cleanly",
 "Every file is built after all files it depends on, for every acyclic reference structure between pages, stylesheets, scripts and partials (a stylesheet's reference to itself aside), so any such site builds. A site with a reference cycle, or with a link to a missing file, ends with an error in bounded time, on a first build and on a rebuild; a partial that no page includes is not looked at.",
 ["programs","histories"],"every reference graph, acyclic or not, and every order of introducing references",
 "Tests have at most three files in a chain.",
 [B+"hot_incremental_rebuild.py",B+"exceptions.py"],[("ready set computation and stall detection",B+"hot_incremental_rebuild.py")],(),["build result, digests in out/www"])
prop("C29","The bundled server serves exactly the built files",
 "The bundled static server answers a request for each built file (any folder depth, any query string) with exactly its current bytes and the content type matching its extension, folders with their index page, and anything else, including paths leading out of the served folder, with an error and without content from outside. A server that cannot start, as when its port is in use, ends with an error rather than hang.",
 ["inputs","histories"],"every served tree and request path",
 "No test starts the server.",
 ["http_server.py"],[("static mount and mime types","http_server.py host_static_files")],(),["http responses on the loopback interface"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
