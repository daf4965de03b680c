HIST = "TLA+ specification of {what}, checked with TLC; every history up to a bound replayed against the real code and compared"
CLAIMED['C23'] = (HIST.format(what="the server over files that change (Site.tla, Server.tla)"),
  "TLC enumerates every history of edits (new or earlier modification times, broken contents, removals, templates) and requests up to a number of edits, and the answer for every state of the disk; a real server has to give these answers. Mistaken cache designs are shown to break the invariants. Trusts the specification, TLC, and that the bounds (2-3 files, 3-4 edits) are enough.")
CLAIMED['C24'] = (HIST.format(what="template sets that change on disk (Templates.tla)"),
  "TLC enumerates every history of edits of four templates (good, blank, broken, failing, using each other) and uses; the real engines for HTML and text have to show exactly the templates which the specification says, or report the broken one. Trusts the specification, TLC and the bounds.")
CLAIMED['C26'] = (HIST.format(what="what the server answers (Answers.tla, Routes.tla, Site.tla, Server.tla)"),
  "The specification gives the answer to requests for the page of every tag of generated documents, and for pages, targets, files, directories and nothing in every combination of versions of a site, some of which fail at each stage; histories of failures and repairs are enumerated. A real server has to answer the same (status, page tokens, what the error page says and marks). Trusts the specification, TLC, the bounds, and Go's file server.")
CLAIMED['C25'] = ("TLA+ specification of concurrent requests (Requests.tla, Cache.tla), checked with TLC; its schedules followed by a real server, and traces of a server under stress validated against Trace.tla",
  "TLC enumerates every interleaving of two or three requests at the points where they read the disk, with edits in between; each is forced on a real server by gates in the document, and what was answered has to fit a state each file had between start and end of the request. Servers under stress, with and without the race detector, are recorded and judged by the same trace specification. Trusts the specification, TLC, the bounds, that edits change the modification time, and that the gates of the documents are fine enough; within loading, interleavings are those which the stress runs meet.")
CLAIMED['C29'] = ("TLA+ specification of threads using deferred content (Lazy.tla), checked with TLC, whose schedules real threads follow; and of documents of deferred content (Render.tla), compared with the real pages",
  "TLC enumerates every interleaving of two or three threads which force or render texts, failures, and deferred content that uses or holds other deferred content; real threads are led through each by gates and must wait, return and compute exactly where the specification says. Many threads at once, also under the race detector, must get what the specification computes. Documents of deferred content must render as specified. Trusts the specification, TLC and the bounds.")
CLAIMED['C27'] = ("TLA+ specification of runs of the command (Cli.tla on top of the specification of builds), checked with TLC; all combinations of options over sample documents and random histories of runs, done with the real command and compared",
  "TLC computes what each run has to come to: exit status, standard output, the report on standard error, the files in every output directory (with those of earlier runs), and the answers of the server. The real command is run with all combinations of output directory, selection, index, engine, templates and lenience over three documents, and with histories of runs over generated documents. Trusts the specification, TLC, the sample documents and bounds.")
CLAIMED['C28'] = ("TLA+ specification of runs with plugins (Cli.tla), checked with TLC; the real command is run with plugin packages, faults and interruptions, and compared",
  "TLC checks that the temporary directory is empty after each run, that with plugins all goes as with the same plugins compiled in, and computes the outcome; the real command builds and runs programs with plugin packages (good, printing, not compiling, missing, exiting, crashing), over generated and sample documents, as a build or server, interrupted while it builds the program or serves. Trusts the specification, TLC and the bounds; SIGKILL is out of scope.")
CLAIMED['C32'] = ("TLA+ specification of transformations of code (Marks.tla, Highlight.tla) and of highlighted code in documents (Eval.tla, Render.tla), checked with TLC; all cases replayed into the real highlighter and compared",
  "TLC enumerates all texts up to a bound with all chains of two transformers over a set of patterns, with what must become of each part; the real transformers and highlighter have to give the same. Documents with code of every language the highlighter knows, and generated documents, have to show the code as specified, looks aside. Trusts the specification, TLC, the samples of code and the bounds.")
