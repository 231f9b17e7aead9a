D.update({
"C20": "`ExecuteController` and `ExecControllerRequest.Execute` against a scripted bus: all histories of exec values (running, error, retry, gone) of up to three values, of the callback failing or blocking, and of cancelation (`exec-seq`, `request-seq`), the same with schedules (`exec-par`, `request-par`), combinations of proto and yaml sources per key (`request-merge`), and against the real loader and config set controller (`request-chain`). Oracle: sequence of statuses per key computed from the history; error of the call; nothing left on the bus.",
"C21": "`formats`: all config sets of up to two entries over 4 types/ids, revisions and contents x all chains of conversions json/yaml/proto/object up to 2 (3 in thorough); `values`: entries over a grammar of contents; `documents`: all small documents from a grammar of json/yaml nodes (null, wrong types, missing fields, unknown types); `raw-configs`: opaque config bytes; `set-algebra`, `merge-yaml`: all pairs of sets. Oracle: the abstract set the document was printed from.",
"C22": "`static-seq`: all sequences of up to 5 (6) additions of 2 ids x 6 versions, passed to the constructor or added, checked against the newest-wins model; `static-par`: schedules of two adders and a reader of each of three lookups (interval oracle: at least the newest whose addition returned before, at most the newest begun); `lookup-seq`, `lookup-par`: lookup directives against two resolver controllers coming and going; `core-seq`: all lists of 3 options of `NewCoreBus`; `bus-factory`.",
"C23": "`plugin-seq`: all histories up to depth 5 (6) of loading, unloading, reloading, requests by config, constructing with and adding by a factory obtained before, and lookups, settled after each step; `plugin-par`: schedules of unload (+ reload) against a request, lookup, construct, add, release; `plugin-reent`: plugin calls from callbacks of the unloading of the plugin or of one factory. Oracle: controllers of an unloaded plugin are not on the bus and not executing, values are those of the loaded one, every constructed controller is closed, factory contexts are canceled.",
"C24": "`daemon-seq`: all histories up to depth 7 (9) of the real API controller on a private loopback address with two clients (dial, hang up, bus info, execute, cancel, start, stop), real network, each condition awaited for up to 30 s, none asserted to be early; `info-seq`: all histories up to depth 5 (7) of two controllers and two directives coming, going and changing their debug values, asked about after each or not; `info-par`: schedules of `GetBusInfo` with a controller and a directive coming and going (interval oracle); `pretty`: all bus infos of up to two controllers and two directives with up to two debug values, printed and through json/proto.",
"C25": "The real loader on a real scratch directory, with stand-ins for `fsnotify` and the standard `plugin` package and a scheduling point before every file access (`os` overlay). `dir-seq`: all histories of up to 3 (4) changes of a file with nine kinds of contents, of a second file, and of spurious events, each in quick succession or settled (and, for the first, with a pause below the debounce time), starting with and without a plugin, next to a directory, a backup file and a dangling link; `start-par`, `resync-par`, `stop-par`: schedules of changes with the loader starting, scanning again, and being stopped; `fault-seq`: failures of the watcher and of the directory; `manual-par`: loading and unloading by hand concurrently. The stand-in of `fsnotify` is bound to the real one by `notify-conf`, which runs all histories of file operations up to a depth on both and compares the events. Size or mtime of a changed file always differ (also to an older or a sub-second time); a change which leaves both as they were cannot be noticed and is not counted as one. Oracle: the set of loaded plugins and of resolvers on the bus equals the directory's; order and number of unload calls; contexts; no open watcher.",
})
D.update({
"C26": "The real compiler runs on modules of its own in a scratch directory with the real `go` command (offline, a file proxy), whose last step links a program which reports what a plugin loader would see, instead of a shared library. `sets`: all singletons, pairs and the whole universe of 19 packages (thorough: triples), two prefixes from one analysis each, compared with the report computed from the universe; `bad-sets`: lists which have to fail; `order`: deviations of the order of map iteration while modules are generated, same files in each; `commands`: options x options of BuildPlugin, the command line and the single-file compiler, each for sources, changed sources, and the first ones again. Domain: the go.mod file of each module suffices to build it (the main module's replacements are not applied if none of its packages is listed), no internal packages, and NewFactory is a function.",
"C27": "`watch`: the real watcher, module generation and analysis with a stand-in for the `go` command which stops before each command and after each listing, for `fsnotify`, and for the linker (it concatenates the sources): all placements of up to two changes, touches, failures and cancelation at these points, and the plugin in the output directory compared with the sources at quiescence; `crash`: the process is killed before its n-th modification of a file, for every n, then run again; `cleanup`: all subsets of names in the output directory x patterns. A compilation error of sources which are not being changed ends the watch (as the code states) and is not a violation.",
})
D.update({
"C28": "The command itself (its sources compiled as a package into the harness, which becomes it in a child process), with real files and loopback addresses, each case in a directory and network of its own. Controllers of a config set are API controllers listening on addresses of their own (so which config runs is seen from outside) and boilerplate controllers counted by `bus-info`. `start-seq`: file states x write flag, and each other flag; `crash-seq`: kill before the n-th file modification (hooks in `os`) x torn data, and `RLIMIT_FSIZE` as a full disk, then a second daemon on what is left; `client-seq`: all histories of depth 4 (thorough 5) of three clients and daemon kills against the C18 rule for keys. Each condition is awaited for up to 25 s and then has to hold twice; none is asserted to be early.",
})
D.update({
"C29": "`equiv`: `IsEquivalent`, `Superceeds`, `Validate`, names, options and debug values of every request and all pairs, against a key computed from the description each request is built from (each is built anew for every comparison; foreign ones only implement the accessors); `share`: sequences of requests on a real bus against a model of the live instances; `configs`: the built-in config types with each field from a domain. Whether an empty and a nil config set are the same, and keys in another order, is not stated and not checked.",
"C30": "`wire`: messages are generated by reflection over the fields, and their contents printed by reflection (not by the generated code under test), for 18 message types; binary, json, codec, copies (the copy is overwritten in place), equality with itself and its neighbours in the enumeration.",
"C31": "`handlers`: each history of events is passed to each nested handler and the recorded calls compared with those computed along the nesting; `funcs`: functions evaluated on all inputs.",
})
