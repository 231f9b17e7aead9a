B = "bus/"
D = "directive/"
C = "controller/"
TESTS = "The unit tests reach this code on one schedule and with a handful of values, if at all."

prop("C10", "One-shot lookups return the first acceptable value, error or idle verdict",
     "A one-shot lookup returns the first value present or added later that passes its filter, together with a reference the caller owns, and otherwise ends exactly when the context is canceled, the directive is disposed, the filter fails, or the idle callback says so, also if a resolver fails when the directive is already idle. Collecting values returns every value present when the directive becomes idle. Whatever is not returned to the caller is released, and the dispose callback fires exactly once, when a returned reference's instance is disposed or its value goes away.",
     SCHED, "every script of resolver steps (add, remove, idle, fail, return, dispose, cancel) up to a length, split in every way into before and during the call, for every variant of the call; and all their interleavings",
     TESTS, [B + "oneoff.go", B + "multi.go", B + "wait.go", B + "refcount.go"],
     [("ExecOneOffWithFilter and its variants", B + "oneoff.go"), ("ExecCollectValues", B + "multi.go"), ("ExecWaitValue", B + "wait.go"), ("NewOneOffRefCount", B + "refcount.go")], ["return values", "references", "callbacks"])
prop("C11", "Watching a directive always settles on a value which is present",
     "Whatever the order in which values come and go, a watcher ends up reporting a value that is present exactly if there is an acceptable one, and none otherwise; it never keeps reporting a removed value. The selecting variants report the value their rule selects, and the effect variants run the effect of exactly the values they stand for and undo each effect exactly once. After the watch is released, or its context canceled, nothing is left running and no callback follows.",
     SCHED, "all histories of values up to a depth for each watch helper, and all interleavings of two changes with releasing the watch",
     TESTS, [B + "watch.go"], [("ExecOneOffWatch*, ExecWatchEffect, ExecWatchTransformEffect", B + "watch.go")], ["watch callbacks, containers and channels", "effects"])
prop("C12", "Mirrored directives have exactly the values of their source",
     "A directive which passes through, transforms or bridges another directive has, whenever nothing is in flight, exactly the images of the source's current values, and none once the source or the bridge is gone. A bridge forwards each accepted directive of one bus to the other exactly once and for exactly as long as it lives, also if it is re-added right after its disposal, and two buses bridged in both directions do not keep each other's directives alive forever.",
     SCHED, "all histories of values, references and bridges up to a depth, and all interleavings of two operations; all orders of map iteration",
     TESTS, [B + "passthru.go", B + "transform.go", B + "bridge/bridge.go"], [("PassThruHandler", B + "passthru.go"), ("TransformHandler", B + "transform.go"), ("BusBridge", B + "bridge/bridge.go")], ["values of the mirroring directive", "directives on the target bus"])
prop("C13", "Deriving resolvers emit exactly the derived values and undo each of them",
     "A resolver which derives values from another directive, container, list or map has at every quiescent moment exactly the values derived from the current source, each once. What its functions acquired for a value is released exactly once, when that value goes away or the resolver is stopped, and not before. A derivation that fails, or rejects a value, leaves nothing behind of the value which was replaced.",
     SCHED, "all histories of source changes, failures, removal and re-creation of the resolver up to a depth, and all interleavings of two changes with stopping it",
     TESTS, [D + "transform-resolver.go", D + "typed-transform-resolver.go", D + "watchable-resolver.go", D + "watchable-transform-resolver.go", D + "unique-list-resolver.go", D + "unique-map-resolver.go", D + "value-resolver.go"],
     [("TransformResolver", D + "transform-resolver.go"), ("WatchableTransformResolver", D + "watchable-transform-resolver.go"), ("UniqueListResolver / UniqueMapResolver", D + "unique-list-resolver.go")], ["values", "release functions"])
prop("C14", "Resolvers holding a resource release it exactly once and retry when told",
     "A resolver which obtains a value with a release function releases it exactly once: when it is stopped, or when the provider says that the value is invalid, after which the value is withdrawn and obtained anew. Reference-counted values are obtained at most once at a time and kept exactly while something refers to them. A retrying resolver tries again after each failure, no sooner than its backoff says, and reports the error and stops when the backoff says stop.",
     SCHED, "all histories of obtaining, invalidating, failing and stopping up to a depth, and all their interleavings in pairs, also if the provider is slow or says a value is invalid before returning it",
     TESTS, [D + "access-resolver.go", D + "getter-resolver.go", D + "keyed-getter-resolver.go", D + "refcount-resolver.go", D + "keyed-refcount-resolver.go", D + "resolver-retry.go", D + "func-resolver.go"],
     [("AccessResolver", D + "access-resolver.go"), ("KeyedGetterResolver", D + "keyed-getter-resolver.go"), ("RetryResolver", D + "resolver-retry.go")], ["getter calls", "release functions", "values", "time of retries"])
prop("C15", "Controllers on a bus: listed, asked and executed exactly while attached",
     "A controller added to a bus is listed and asked about directives exactly until it is released, removed or its execution fails, executes exactly once per attachment with a context that is canceled by then, and its exit callback is told the result exactly once. A panic in it is reported as its error. Adding and removing controllers works concurrently and from within controllers and their callbacks, and ending one attachment never affects another one.",
     SCHED, "all histories of adding, executing, failing, panicking and removing two controllers up to a depth, all interleavings of pairs of operations, and all placements of bus calls inside controller callbacks",
     TESTS, [B + "inmem/inmem.go", B + "bus.go"], [("Bus.AddController, ExecuteController, RemoveController, AddHandler", B + "inmem/inmem.go")], ["GetControllers", "HandleDirective", "Execute", "AddController callback"])
prop("C16", "Executing a controller by config: one instance, retried, withdrawn when gone",
     "For each equivalent set of requests to execute a controller exactly one instance is constructed, executed and attached to the bus, for as long as a request is referenced and the loader is present; a newer factory version replaces an older one. The value of the request always tells the truth: the controller while it is usable, or its last error and the time of the next attempt, which is made exactly then and not after the backoff says stop. Each constructed instance is closed exactly once, after its execution ended, and waiting for a running controller returns it, its error, or reports later that it stopped.",
     SCHED, "all histories of results (success, error, panic, nil), retries, loader removal, sharing and releasing up to a depth, and all interleavings of the end of an execution with releases and removal",
     TESTS, [C + "loader/loader-resolve.go", C + "loader/dir-exec-controller.go", C + "loader/ex-load-controller.go"], [("resolver.Resolve", C + "loader/loader-resolve.go"), ("WaitExecControllerRunning", C + "loader/ex-load-controller.go")], ["ExecControllerValue", "Construct", "Execute", "Close", "GetControllers"])
prop("C17", "A config is turned into a running controller while every part is present",
     "While a request to load a controller with a config is referenced, and the loader, the resolver and a factory for the config are present, exactly one controller runs for it and each request with an equal config has it as its value, in whatever order these parts appear. When the request is released, or the loader, the resolver or the loaded factory goes away, the controller is stopped and closed and the value withdrawn. (A factory that was found by a directive and unloaded is not looked up again before the request is made anew.) Failures of the controller are retried with the backoff of the request.",
     SCHED, "all histories of requests for four configs (direct, shared, looked up, unloadable) and of the parts coming and going up to a depth, and all interleavings of pairs",
     TESTS, [C + "resolver/res-load-with-config.go", C + "resolver/controller.go", C + "resolver/dir-load-controller.go", C + "resolver/res-load-factory.go"], [("loadWithConfigResolver.Resolve", C + "resolver/res-load-with-config.go")], ["LoadControllerWithConfigValue", "GetControllers", "Construct", "Close"])
prop("C18", "A config set runs the newest config of each referenced key, and nothing else",
     "For each key the controller of the applied config with the highest revision runs, exactly while at least one reference to the key is held; of equal revisions the first one stays, and a config nobody refers to any more has no influence. A persistent reference or lookup starts nothing but keeps a running config running. A replaced, invalid or failed config never leaves an old controller running nor keeps a valid newer one from starting, and everything stops when the config set controller is removed.",
     SCHED, "all histories of pushing, applying, looking up, releasing, failing and replacing configs of two keys up to a depth, settled or in quick succession, and all interleavings of two operations, each compared with every sequential order",
     TESTS, [C + "configset/controller/controller.go", C + "configset/controller/running-ctrl.go", C + "configset/controller/running-ctrl-ref.go", C + "configset/controller/apply-config-set.go"], [("Controller.PushControllerConfig / AddConfigSetReference / Execute", C + "configset/controller/controller.go"), ("runningController.Execute / ApplyConfig", C + "configset/controller/running-ctrl.go")], ["PushControllerConfig", "ApplyConfigSet", "running controllers"])
prop("C19", "The reported config set state is the true state and delivered in order",
     "The state of a config set reference, the last state passed to each of its callbacks, and the values of the applying and looking-up directives agree at every quiescent moment with the config in use, the controller running for it, and its error. Callbacks get the initial state, are never called concurrently with themselves, and may release references or push configs without a deadlock.",
     SCHED, "all histories up to a depth with references, callbacks and directives observed after every step; all interleavings of two operations; re-entrant callbacks",
     TESTS, [C + "configset/controller/running-ctrl-ref.go", C + "configset/controller/running-ctrl-state.go", C + "configset/controller/lookup-config-set.go", C + "configset/controller/apply-config-set.go"], [("AddStateCallback / pushState", C + "configset/controller/running-ctrl-ref.go")], ["Reference.GetState", "AddStateCallback", "ApplyConfigSetValue", "LookupConfigSetValue"])
prop("C20", "Executing configs with a status stream: the reported status is the truth, in order",
     "While a controller config (or the config set of an execution request) is executed with a status callback, the statuses reported for each key are exactly the states its controller goes through, in their order: configuring first, running while a controller runs and with its information, error while there is none because of an error; the last one reported is the true one. The call ends only with the error of its callback, cancelation, or if nothing can be executed, and then no controller it started, reference or goroutine is left. An execution request combines its config set and its yaml document; the latter overrides the former per key only if the request says so, and an invalid entry does not prevent the valid ones from being executed.",
     SCHED, "all histories of states of up to three values per directive, failing callbacks and cancelation up to a depth, all combinations of two config sources over two keys, and all interleavings of changes with the callback",
     TESTS, [C + "exec/exec.go", C + "exec/exec-request.go"], [("ExecuteController", C + "exec/exec.go"), ("ExecControllerRequest.Execute", C + "exec/exec-request.go")], ["ExecControllerResponse", "return value", "GetControllers"])
prop("C21", "A config set keeps its meaning through every format",
     "A set of controller configs written as json, yaml or protobuf is read back as the same set: the same keys, revisions, and configs of the same type with equal contents, in any chain of conversions. Reading never panics, ignores or invents an entry: it fails for an entry which is malformed, has an unknown type, or no value, and whatever it accepts can be written again. Merging documents and sets, and comparing and sorting them, follow their stated rules for every input.",
     ["inputs", "configurations"], "all config sets of up to two or three entries over a domain of ids, revisions, types and contents (incl. those which look like another format), all chains of conversions up to a length; all small documents over a grammar of json and yaml values; all pairs of sets for merging and comparing",
     TESTS, [C + "configset/json/", C + "configset/proto/configset.go", C + "configset/proto/controller_config.go", C + "configset/util.go", C + "configset/configset.go"], [("ConfigSet.Resolve", C + "configset/json/controller-config.go"), ("ControllerConfig.Resolve", C + "configset/proto/controller_config.go"), ("MergeConfigSets", C + "configset/util.go")], ["MarshalJSON / UnmarshalJSON / MarshalYAML", "Resolve", "ControllerConfig", "MergeConfigSets"])
prop("C22", "A config is matched with the newest factory of its id",
     "Looking up the factory or the config constructor of a config id on a resolver yields the newest version among those added before (the first of equal versions) and nothing for an id which was not added, concurrently with additions too; the list of factories is sorted and has each id once. A lookup directive has at most one value, only one which an attached resolver has, has one whenever the only resolver knowing the id is attached, and none once it is gone. A core bus starts with exactly the loader, the resolver and all configured factories, and a factory never constructs a controller from a config of another type.",
     SCHED, "all sequences of adding factories of two ids and six versions (incl. prereleases and build metadata) up to a depth; all interleavings of two adders with lookups; all histories of resolvers and lookups; all combinations of options of the core bus",
     TESTS, [C + "resolver/static/resolver.go", C + "resolver/res-load-config-ctor.go", C + "resolver/res-load-factory.go", "core/core.go", B + "factory.go", B + "controller.go"], [("Resolver.AddFactory / GetFactoryMatchingConfig", C + "resolver/static/resolver.go"), ("NewCoreBus", "core/core.go"), ("BusFactory.Construct", B + "factory.go")], ["GetFactoryMatchingConfig", "GetConfigCtorByID", "GetFactories", "LoadFactoryByConfig values", "LoadConfigConstructorByID values"])
prop("C23", "Unloading a plugin leaves nothing of it behind",
     "While a plugin is loaded its factories are found and controllers of it are executed like any other; when it is unloaded every controller it constructed is removed from the bus and stopped, requests served by it lose their value, and the context of each of its factories is canceled. From then on neither the plugin nor a factory obtained before finds a factory or constructs a controller, also if it races with the unloading, and a request is served by the reloaded plugin with a controller of that one. Unloading works from within callbacks, and more than once.",
     SCHED, "all histories of loading, unloading and reloading a plugin (one at a time per config) with requests by config and by held factory up to a depth; all interleavings of unloading and reloading with one operation of a user; all placements of plugin calls inside callbacks of the unloading",
     TESTS, ["plugin/resolver.go", "plugin/static-plugin-factory.go", "plugin/static-plugin.go", C + "loader/dir-exec-controller.go", C + "resolver/res-load-with-config.go"],
     [("Resolver.GetFactoryMatchingConfig / PrePluginUnload", "plugin/resolver.go"), ("StaticPluginFactory.Construct / Close", "plugin/static-plugin-factory.go")], ["GetControllers", "LoadControllerWithConfigValue", "GetFactoryContext", "Construct", "Close"])
prop("C24", "The bus API serves every client until it is stopped",
     "While the API controller executes, each connected client is served independently of all others: bus info lists exactly the controllers and directives on the bus, each once, and an execution request runs its configs for exactly as long as the client keeps the request open, or is refused without effect if execution is disabled. When the controller is stopped, its address is free as soon as it returns, every connection and request ends, and it can be started again on the same address. The printed and encoded bus info contains what the bus has.",
     ["histories", "schedules", "inputs"], "all histories of starting and stopping the controller and of connecting, asking, executing, canceling and hanging up by two clients on the loopback network up to a depth, with execution enabled or not; all interleavings of bus info with controllers and directives coming and going; all small bus infos",
     TESTS, [B + "api/api.go", B + "api/api_get_bus_info.go", B + "api/api_exec_controller.go", B + "api/interactive.go", B + "api/controller/controller.go", B + "api/controller/factory.go"],
     [("Controller.Execute", B + "api/controller/controller.go"), ("API.GetBusInfo", B + "api/api_get_bus_info.go"), ("API.ExecController", B + "api/api_exec_controller.go")], ["GetBusInfo", "ExecController stream", "running controllers", "listening socket"])
PL = "plugin/loader/shared-library/"
prop("C25", "A plugin directory is mirrored by the loaded plugins",
     "While the plugin directory loader runs, the loaded plugins are, whenever the directory has been quiet for a while, exactly those of the plugin files present, each in the version its file holds: a file which appears is loaded, one whose size or modification time changed in either direction is reloaded, one which is gone is unloaded, also if it changed while the loader started or was loading others, and a plugin whose file did not change is left alone. A file which is broken in any way does not affect the others nor the loader. A plugin is unloaded exactly once: its context is canceled, then its resolver and then the plugin is told, its factories leave the bus; all of this also holds for every plugin when the loader stops or fails, which leaves no plugin and no watcher behind.",
     ["histories", "schedules", "faults"], "all histories of changes of two files with nine kinds of contents up to a depth with pauses around the debounce time; all interleavings of changes with the accesses of the starting, loading or stopping loader to files; failures of the watcher and of the directory; all interleavings of loading and unloading by hand",
     TESTS, [PL + "shared-library.go", PL + "plugin-stat.go", PL + "filesystem/watcher.go", PL + "filesystem/controller.go"],
     [("Watcher.Execute / SyncPlugins", PL + "filesystem/watcher.go"), ("LoadPluginSharedLibrary / LoadedPlugin.Close", PL + "shared-library.go"), ("PluginStat.Equal", PL + "plugin-stat.go")], ["loaded plugins", "plugin context", "PrePluginUnload", "GetControllers"])

PC = "plugin/compiler/"
prop("C26", "A generated plugin has exactly the factories of its packages",
     "A plugin compiled from any list of packages of one or several modules, also of packages which have the same name, a package's name the generator uses itself, import each other, embed files or have no factory, builds and contains exactly one factory for each listed package which has a NewFactory function, each with the code of that package under the build prefix; whatever is not listed is the original. Its id, version and build id are those asked for, with {buildHash} replaced by a hash of the code, the same one for the same sources and another one for changed sources, by each way to start the compiler. The sources and other files are left untouched, what was generated is removed unless it is to be kept, and lists which cannot be compiled yield an error.",
     ["inputs", "configurations"], "all packages, all pairs of them and all at once (in thorough all triples) from 19 packages in 8 modules, whose go.mod suffices to build them, with two prefixes each; all lists with an invalid, missing or broken package; all combinations of the options of the commands; all orders of map iteration up to two deviations",
     TESTS, [PC], [("AnalyzePackages", PC + "analysis.go"), ("ModuleCompiler.GenerateModules", PC + "module-compiler.go"), ("GeneratePluginWrapper", PC + "codegen.go"), ("BuildPlugin, CompilePluginFromFile", PC + "compiler.go"), ("CompilerArgs", "plugin/cli/")], ["output file", "report of the plugin", "generated directory", "source tree"])
prop("C27", "A watched plugin follows its sources",
     "While the watch-compiler runs, a change of a source file of a watched package to code which compiles, at any time, also during a compilation, leads to a plugin built from the current sources, named after their hash, and it becomes the only version in the output directory; without a change it is not rewritten. The output directory never contains an incomplete plugin under a plugin's name, however the watch-compiler is canceled, fails or crashes, and the next run completes the work. Files which are not versions of this plugin are never deleted.",
     ["histories", "faults", "inputs"], "all histories of up to two changes (edit, revert, add, remove, touch), of either of two packages, before, between and after any two commands of a compilation; the sources being away for less than an analysis; cancelation, failure of each command and a crash before each modification of a file, each followed by another run; all subsets of the names next to the plugin",
     TESTS, [PC + "watcher.go", PC + "util.go", PC + "module-compiler.go"], [("Watcher.WatchCompilePlugin", PC + "watcher.go"), ("CleanupOldVersions", PC + "util.go")], ["files of the output directory", "compiled callback", "return value"])
prop("C28", "The daemon runs its config file, and neither a crash nor a full disk damages it",
     "The daemon either ends with an error and leaves its config file as it is, or runs exactly the controllers of the file (a config which cannot run does not affect the others, and one of a plugin which is hot-loaded waits for it), and its API tells so to the client commands. Asked to write the config, it keeps the meaning, the mode and the link of the file; whatever moment it is killed at, and however much fits on the disk, the next daemon runs the same set. What a client executes runs exactly until that client ends, is canceled or the daemon is killed, and the client prints each status as a line of JSON, the true one last.",
     ["histories", "faults", "inputs"], "24 states of the config file with and without writing it and all flags; a kill before each modification of a file with each of none, half or all of what was not synced on the disk; limits of the size of a file; all histories up to a depth of three clients with overlapping config sets coming and going and of the daemon being killed and restarted",
     TESTS, ["cmd/controllerbus/cmd_daemon.go", "cmd/controllerbus/cmd_client.go", "cli/client.go", "cli/client_exec_configset.go", "cli/client_nodeinfo.go", "cli/daemon.go"],
     [("runDaemon", "cmd/controllerbus/cmd_daemon.go"), ("ClientArgs.RunExecController", "cli/client_exec_configset.go"), ("ClientArgs.RunBusInfo", "cli/client_nodeinfo.go")], ["config file", "exit code", "listening sockets", "bus-info output", "exec output"])
prop("C29", "Requests are shared exactly if they ask for the same",
     "Two requests (to execute a controller; to load a controller, a factory or a config constructor; to apply or look up configs) are equal exactly if they are of the same kind and their contents are equal, whoever implements them: an equality in the strict sense, and of equal ones only one with a newer factory version replaces the other. On a bus, in whatever order they are added, a request gets the instance of an equal one exactly then, and a replaced one is gone. A request is valid exactly if it has all it needs and its config is valid, its name, options and debug values are those of its contents, and two configs of the built-in types are equal exactly if type and contents are.",
     ["inputs", "histories"], "all pairs from a universe of 83 requests (factories of two ids, three versions, loaded and unloaded; six configs; config sets and lists of keys) and as many by a foreign implementation; all pairs, and all sequences of three (thorough: four) of those which differ in one aspect, added to a bus; all pairs of small configs of each built-in type",
     TESTS, [C + "loader/dir-exec-controller.go", C + "resolver/dir-load-controller.go", C + "resolver/dir-load-factory-by-config.go", C + "resolver/dir-load-config-ctor.go", C + "configset/apply-configset.go", C + "configset/lookup-configset.go", "config/config.go"],
     [("execController.IsEquivalent / Superceeds", C + "loader/dir-exec-controller.go"), ("ConfigSet.Equal", C + "configset/configset.go"), ("EqualsConfig", "config/config.go")], ["IsEquivalent", "Superceeds", "AddDirective", "GetDirectives", "Validate", "GetDebugVals"])
prop("C30", "Messages keep their meaning on the wire",
     "Every message of the APIs and every built-in config is read back from its binary and json form, through the codec for directives too, with the same contents, whatever they are; reading a part of one never panics. Two messages are equal exactly if their contents are, and a copy is equal and independent. What is not a message is refused by the codec with its stated error, and the error and printed form of an execution status tell the status.",
     ["inputs"], "all messages of 18 types with each field from a domain (zero, usual, extreme and special values, unknown enumerators, lists of up to two and maps of up to two entries) up to three levels of nesting (thorough: four), all prefixes of their binary forms",
     TESTS, ["directive/proto/proto.go", C + "exec/exec-response.go", C + "info.go", "bus/api/api.pb.go", C + "exec/exec.pb.go", "directive/directive.pb.go"],
     [("protoCodec.Marshal / Unmarshal", "directive/proto/proto.go"), ("ExecControllerResponse.GetError", C + "exec/exec-response.go"), ("Info.Clone", C + "info.go")], ["MarshalVT / UnmarshalVT", "MarshalJSON / UnmarshalJSON", "CloneVT / EqualVT", "NetworkedCodec"])
prop("C31", "Adapters pass on every event, once and unchanged",
     "A handler built from callbacks (typed or not, logging or not, nested in any way, with any of its callbacks left out) passes each value and the disposal on to exactly the callbacks it concerns, once and unchanged, values of another type to the handler for these. The ready-made idle callbacks, lists of resolvers, attached values and the callback controller do for every input what they state: they never block, drop or reorder more than stated, nor let a caller change what they keep.",
     ["inputs", "histories"], "all handlers nested up to two levels x all histories of two (thorough: three) of seven events; all lists of up to three (five) of five errors x idle states x free room; all lists of up to four (six) resolvers; all combinations of callbacks",
     TESTS, ["directive/callback-handler.go", "directive/typed-callback-handler.go", "directive/log-handler.go", "directive/err-idle-callback.go", "directive/resolver.go", "directive/directive.go", B + "callback.go", B + "oneoff.go", C + "callback/callback.go"],
     [("TypedCallbackHandler", "directive/typed-callback-handler.go"), ("NewErrChIdleCallback", "directive/err-idle-callback.go"), ("CallbackController", C + "callback/callback.go"), ("ReturnIfIdle", B + "oneoff.go")], ["ReferenceHandler", "IdleCallback", "ExecIdleCallback", "CallbackController"])
