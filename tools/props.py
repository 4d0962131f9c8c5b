"""Source of properties.jsonl: one entry per property."""
L = "sdk/python/lib/pulumi/"
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": why, "anchors": {"files": [f if f.startswith("sdk") else L + f for f in files],
                                                 "mechanism": [{"name": a, "where": b} for a, b in mech]}})


p("C01", "Secretness survives every output combinator",
  "An output derived from other outputs (by combining, lifting, indexing, concatenating, mapping or applying a callback, including through lists, dictionaries and input classes nested to any depth, and including outputs returned by the callback) is secret whenever any contributing output is secret. Marking a value secret always yields a secret output; the only operation that clears the mark is the explicit un-secret operation.",
  "inputs programs schedules", "every combinator, every nesting of inputs, every assignment of secretness to the inputs, every completion order",
  "Tests sample single combinators on a few literal inputs; the flag travels in a separate future from the value, so a dropped flag leaves values right and tests green.",
  ["output.py"], [("is-secret future of each combinator's result", "output.py: Output.apply, all, from_input, concat, secret, unsecret, _map_output, _map2_output, _map_input, _map2_input")])
p("C02", "Resource dependencies survive every output combinator",
  "An output derived from other outputs carries the resource dependencies of every contributing output, including those of outputs returned by a callback and of outputs nested inside lists, dictionaries or input classes.",
  "inputs programs schedules", "every combinator, every nesting of inputs, previews and updates",
  "Dependencies only show up as engine ordering; tests look at one or two fixed graphs.",
  ["output.py"], [("resources future of each combinator's result", "output.py: Output.apply, all, from_input, _map2_output")])
p("C03", "Unknown values stay unknown and callbacks do not see them",
  "During a preview an output derived from an output whose value is unknown (or contains an unknown anywhere inside it) is itself unknown, never presented as known. A callback is not run on an unknown value unless it asked to run with unknowns, in which case it receives the unknown marker; a callback whose input is known does run.",
  "inputs programs configurations", "every combinator, previews and updates, known, unknown and partly unknown values",
  "Preview tests cover a handful of shapes; an unknown that turns known only shows as a wrong plan.",
  ["output.py", "runtime/rpc.py"], [("is-known future and the preview guard", "output.py: Output.__init__, Output.apply, Output.all"), ("search for nested unknowns", "runtime/rpc.py: contains_unknowns")])
p("C04", "Combined outputs hold the inputs' values in place",
  "When all contributing outputs are known, the combined output's value has the inputs' fully unwrapped values at the positions and keys where the inputs were given, concatenation keeps argument order, and an applied callback receives the input's value and its (unwrapped) result becomes the output's value.",
  "inputs programs", "every combinator and every nesting of outputs, awaitables, lists, dictionaries and input classes",
  "Values are checked by tests on a few literal shapes only; the rule quantifies over all nestings.",
  ["output.py"], [("value future of each combinator's result", "output.py: Output.apply, all, from_input, concat, __getitem__, __getattr__")])
p("C05", "Secrets are marked on every request sent to the engine",
  "Whenever the engine supports secrets, a secret output appearing anywhere in the inputs of a resource registration, a read, a function call or a component result is sent wrapped in the secret envelope (or as an output value flagged secret), never as plaintext. Secret-ness of the wrapped value is kept when outputs are sent as output values, which also carry their known flag and dependencies.",
  "inputs programs configurations", "every nesting depth and position of the output, every engine feature combination",
  "Tests serialize a few fixed dictionaries; leaks appear only for particular nestings or feature combinations.",
  ["runtime/rpc.py", "runtime/resource.py", "runtime/invoke.py"], [("envelope on serialization", "runtime/rpc.py: serialize_property")])
p("C06", "Secret marks received from the engine are honoured",
  "A value the engine returns in a secret envelope for a registered, read or rehydrated resource or a method call, at the top of a property or nested inside lists and objects, yields an output that is flagged secret and whose value is the bare plaintext with no envelope left in it. Properties of a resource that are not secret are not flagged because a sibling property is.",
  "inputs programs", "every response shape: secrets at the top, nested in lists and objects, mixed with unknowns and resource references",
  "Tests use a handful of literal responses.",
  ["runtime/rpc.py", "runtime/invoke.py", "provider/server.py"], [("unwrap on deserialization and propagation through lists/objects", "runtime/rpc.py: deserialize_property, deserialize_properties, resolve_properties")])
p("C07", "Unknown values cross the wire as unknowns in both directions",
  "An unknown value is sent as the dedicated unknown marker and the marker received from the engine becomes an unknown, never an ordinary string, at any nesting depth, including inside secrets, assets archives and output values when unknowns are requested. A resource whose identifier is returned empty in a preview has an unknown id.",
  "inputs configurations", "every nesting of markers and every preview/update mode",
  "Tests pin the marker at one level only.",
  ["runtime/rpc.py", "runtime/resource.py"], [("unknown sentinel", "runtime/rpc.py: serialize_property, deserialize_property, deserialize_properties"), ("empty id", "runtime/resource.py: register_resource, read_resource")])
p("C08", "Wire signatures agree between encoder, decoder and other languages",
  "The type signatures and markers used for secrets, assets, archives, resource references, output values and unknowns are the same constants the Go engine uses, each is distinct, and every kind of special value the SDK can send it can also decode.",
  "inputs programs", "every special value kind",
  "Encoder and decoder tests share the same constant, so a changed constant passes both.",
  ["runtime/rpc.py", "sdk/go/common/resource/properties.go", "sdk/go/common/resource/asset.go"], [("signature table", "runtime/rpc.py: _special_*_sig, UNKNOWN"), ("the engine's table", "sdk/go/common/resource/properties.go")])
p("C09", "Property dependencies are reported to the engine completely",
  "For every resource registration the dependencies of each input property, including those of outputs nested inside lists, dictionaries and input classes and of resources passed as values, are reported for that property and included in the resource's overall dependency list, together with explicit dependencies given in options.",
  "inputs programs", "every nesting of outputs and resources in properties and depends-on",
  "Ordering and delete-before-create errors need particular graphs; tests pin few of them.",
  ["runtime/rpc.py", "runtime/resource.py"], [("dependency lists gathered while serializing", "runtime/rpc.py: serialize_properties, serialize_property"), ("request fields dependencies/propertyDependencies", "runtime/resource.py: prepare_resource, register_resource")])
p("C10", "Every resource option reaches the engine",
  "Each option given for a resource (protect, delete-before-replace, ignored changes, replace-on-changes, retain-on-delete, version, plugin URL, import id, custom timeouts, additional secret outputs, aliases, parent, provider, providers, depends-on) is conveyed in the registration request, and the applicable ones in the read request, with the value given.",
  "inputs programs", "every option, set or unset, in any combination",
  "A dropped option is silent: the request is still valid; tests set few of them.",
  ["runtime/resource.py"], [("request construction", "runtime/resource.py: register_resource, read_resource, prepare_resource")])
p("C11", "Merging options loses and alters nothing",
  "Merging two sets of resource options or function-call options yields, for every option, the second set's value when it is given and otherwise the first's, with collection options (aliases, depends-on, ignored changes, replace-on-changes, additional secrets, providers, transformations) combined from both. Neither argument is modified.",
  "inputs", "every option field, every combination of set and unset on both sides, scalar, list and output-valued collections",
  "Tests merge a few pairs of fields.",
  ["resource.py", "invoke.py"], [("field-wise merge", "resource.py: ResourceOptions._merge_instance, _merge_lists; invoke.py: InvokeOptions.merge")])
p("C12", "Outputs of an in-flight operation always settle",
  "Whatever goes wrong in registering or reading a resource, rehydrating it, calling a provider function or applying a callback - bad inputs, a failing provider, an engine error, an undecodable response - every output handed to the program for that operation is eventually settled with a value or an error, so that the program never hangs waiting for it.",
  "fault_sequences schedules inputs", "every operation and every point at which a step of it can raise",
  "Tests inject one or two failures; the rule covers every raising point.",
  ["runtime/resource.py", "runtime/rpc.py", "output.py"], [("exception path that rejects the transferred property futures", "runtime/resource.py: do_register, do_read, do_get; runtime/rpc.py: resolve_outputs_due_to_exception"), ("finally block of apply", "output.py: Output.apply")])
p("C13", "Engine errors are never swallowed and all work is awaited",
  "An error in any engine request made on behalf of the program (registering, reading, invoking, calling, registering outputs) makes the deployment fail instead of being dropped. All such outstanding requests are tracked and awaited before the program ends, including those started while waiting.",
  "fault_sequences schedules", "every request kind, every failing point, any number of outstanding requests",
  "Tests exercise a few error paths with a mock engine; a lost task leaves no trace.",
  ["runtime/rpc_manager.py", "runtime/resource.py", "runtime/invoke.py", "runtime/stack.py"], [("tracking of requests", "runtime/rpc_manager.py: RPCManager.do_rpc"), ("waiting and re-raising", "runtime/stack.py: wait_for_rpcs, run_pulumi_func")])
p("C14", "Engine requests never block the event loop",
  "Every blocking request to the engine made while the program's event loop is running (registering, reading, invoking, calling, registering outputs, querying features; log messages excepted) is issued from a worker thread, never directly from a coroutine.",
  "schedules programs", "every engine request site reachable from coroutines",
  "Blocking calls still give right answers in tests; they only deadlock or serialise under real schedules.",
  ["runtime/resource.py", "runtime/invoke.py", "runtime/settings.py"], [("run_in_executor", "runtime/resource.py, runtime/invoke.py, runtime/settings.py")])
p("C15", "Every gRPC channel and server allows large messages",
  "Every gRPC channel or server the SDK opens (to the engine, the monitor, a component provider, a dynamic provider or the automation language runtime) is configured with the enlarged maximum message size in the directions it receives.",
  "configurations inputs", "every channel and server creation",
  "Tests never send messages beyond the 4 MiB default.",
  ["runtime/settings.py", "runtime/_grpc_settings.py", "provider/server.py", "dynamic/__main__.py", "automation/_stack.py"], [("channel options", "runtime/_grpc_settings.py and its users")])
p("C16", "Component provider requests are isolated from one another",
  "A component provider handles construct and call requests one at a time, each starting from fresh deployment settings taken from that request (project, stack, parallelism, preview flag, monitor address, organization) and fresh outstanding-request tracking, with the request's configuration and secret keys installed, and answers only after the work it started is done.",
  "histories schedules", "every sequence and overlap of requests to one provider process",
  "Unit tests issue one request; leakage needs two with different settings.",
  ["provider/server.py", "runtime/settings.py", "runtime/config.py"], [("reset and configure under the lock", "provider/server.py: ProviderServicer.Construct, Call")])
p("C17", "Component construct and call convey inputs, options and results",
  "A component provider passes to the user's code every input with its value, secretness, known flag and dependencies, and every option of the request (aliases, dependencies, protect, providers, parent); the response conveys the urn, the state or return values with secrets kept, and the dependencies of each, or the check failures returned.",
  "inputs", "every request field and every response field",
  "Tests cover some input conversions, none of the response assembly.",
  ["provider/server.py"], [("request decoding", "provider/server.py: _construct_options, create_output, _create_output"), ("response encoding", "provider/server.py: Construct, Call")])
p("C18", "Dynamic providers convey every result faithfully",
  "Each operation of a user-written dynamic provider (check, diff, create, update, read, delete) is invoked with the id and the old and new properties the engine supplied, and every field of its result - inputs, failures, changes, replaces, stables, delete-before-replace, outputs, id - reaches the engine. The serialized provider is kept in the resource's inputs and state so that later operations find it, and the provider of the new state is preferred on update.",
  "inputs histories", "every operation and every result field",
  "No test drives the dynamic provider server.",
  ["dynamic/__main__.py", "dynamic/dynamic.py"], [("servicer methods", "dynamic/__main__.py: DynamicResourceProviderServicer.*")])
p("C19", "Serializing a dynamic provider has no lasting side effects",
  "Serializing a dynamic provider leaves the process's pickling machinery exactly as it found it, on success and on failure, and does not depend on how often it ran before.",
  "histories fault_sequences", "any number of serializations, interleaved with user pickling",
  "A single serialization in a test cannot show accumulated state.",
  ["dynamic/dynamic.py"], [("patched pickler", "dynamic/dynamic.py: serialize_provider")])
p("C20", "Objects the program passes in are never modified",
  "Constructing or reading a resource, calling a provider function or creating an automation stack does not modify the options objects, property dictionaries, lists or other argument objects supplied by the program, so that they can be shared and reused between calls.",
  "programs histories inputs", "every public entry point that accepts caller-owned containers or option objects",
  "Shared-argument bugs need a second use of the same object; tests build fresh ones.",
  ["resource.py", "runtime/resource.py", "runtime/invoke.py", "dynamic/dynamic.py", "automation/_stack.py"], [("copy before write", "resource.py: Resource.__init__, Resource._get_providers; runtime/invoke.py: invoke; dynamic/dynamic.py: Resource.__init__")])
p("C21", "Secret configuration values are always secret outputs",
  "Every configuration accessor that asks for a secret returns the value, when present, as a secret output - for plain, boolean, integer, float and structured values, in the optional and the required form - and reports the same parse and missing errors as its plain counterpart. The value passed is the one stored under the project's namespaced key.",
  "inputs configurations", "every accessor and every stored value",
  "Tests check only some of the accessors and only values.",
  ["config.py"], [("secret getters", "config.py: Config.get_secret*, require_secret*")])
p("C22", "Configuration accessors agree on presence, type and errors",
  "For every type, the optional accessor returns the caller's default (or nothing) when the key is missing and the typed value when it is present - including falsy values - and raises a type error when it does not parse; the required accessor raises a missing-value error exactly when the key is missing and otherwise returns the same value as the optional one.",
  "inputs configurations", "every accessor, every stored string, with and without defaults",
  "Tests use a few literals per accessor.",
  ["config.py", "errors.py"], [("get/require families", "config.py: Config.get*, require*")])
p("C23", "Automation API never exposes secrets it handles",
  "Setting configuration values through the automation API marks each value secret exactly when the caller flagged it, values read back keep the flag the CLI reports, and the printable form of secret configuration and output values never contains the plaintext.",
  "inputs", "every config operation, single and bulk, and every value object",
  "CLI-backed tests cannot run offline, and printable forms are not tested for all objects.",
  ["automation/_local_workspace.py", "automation/_config.py", "automation/_output.py", "automation/_stack.py"], [("--secret/--plaintext selection", "automation/_local_workspace.py: set_config, set_all_config"), ("masked repr", "automation/_config.py, automation/_output.py")])
p("C24", "Every automation option becomes its command-line flag",
  "Every option accepted by the automation API's up, preview, refresh, destroy and workspace operations is translated into the CLI flag of the same meaning with the value given, as strings, and no option is silently dropped.",
  "inputs configurations", "every option in any combination for every operation",
  "CLI-backed tests cannot run offline and sample few options.",
  ["automation/_stack.py", "automation/_cmd.py"], [("argument assembly", "automation/_stack.py: _parse_extra_args, up, preview, refresh, destroy")])
p("C25", "Automation commands are scoped and failures are typed errors",
  "Every stack operation of the automation API runs the CLI non-interactively against exactly the stack it was asked about, in the workspace's directory with the workspace's home and environment variables, and a non-zero exit is always reported as an exception carrying code and output, classified by kind.",
  "inputs fault_sequences configurations", "every operation and every exit code",
  "CLI-backed tests cannot run offline.",
  ["automation/_stack.py", "automation/_local_workspace.py", "automation/_cmd.py", "automation/errors.py"], [("command runner", "automation/_cmd.py: _run_pulumi_cmd; automation/_local_workspace.py: _run_pulumi_cmd_sync"), ("--stack scoping", "automation/_stack.py: _run_pulumi_cmd_sync")])
p("C26", "Automation operations release what they acquire",
  "Every temporary file or directory, background thread and in-process server an automation operation creates is removed, joined or stopped on every exit, including when the CLI fails or the inline program raises.",
  "fault_sequences", "every raising point of up, preview, refresh, destroy and import",
  "CLI-backed tests cannot run offline; failures at each point are not simulated.",
  ["automation/_stack.py", "automation/_local_workspace.py", "automation/_server.py"], [("finally blocks", "automation/_stack.py: up, preview, refresh, destroy; automation/_local_workspace.py: import_stack")])
p("C27", "Automation settings are stored without loss",
  "Project and stack settings saved by the automation API contain every field of the settings object under the key the CLI reads, and settings loaded from a file expose every key as the corresponding field, including falsy values, nested objects and secret configuration.",
  "inputs", "every settings field and every value type",
  "Round trips in tests use one or two small files.",
  ["automation/_project_settings.py", "automation/_stack_settings.py", "automation/_local_workspace.py"], [("(de)serialization tables", "automation/_project_settings.py, automation/_stack_settings.py")])
p("C28", "Engine events are decoded with every field",
  "Each engine event delivered to an automation callback carries every field the engine emits for that event kind, read from the JSON key the engine writes, with nested events and property diffs decoded to their typed form, and every event kind the engine emits is recognised.",
  "inputs", "every event kind and field",
  "Event tests run against a live CLI, which is unavailable, and check few fields.",
  ["automation/events.py", "sdk/go/common/apitype/events.go"], [("JSON key tables", "automation/events.py"), ("the engine's tables", "sdk/go/common/apitype/events.go")])
p("C29", "Dependencies never form cycles and components expand to children",
  "Depending on a component means depending on its children, transitively through nested components, but never on remote or external components' unregistered children nor on a component that is its own ancestor; so a resource never waits for itself. Awaiting the URNs of expanded dependencies covers every custom resource reached.",
  "programs", "every parent/child and depends-on graph",
  "Deadlocks need particular graphs; tests pin few.",
  ["runtime/resource.py"], [("dependency expansion", "runtime/resource.py: _add_dependency, _expand_dependencies")])
p("C30", "Property name translation is consistent in both directions",
  "Property names sent to the engine are translated with the resource's or type's own python-to-engine mapping at every nesting level, and names received are translated back with the inverse mapping before they are exposed, with keys of plain dictionaries left alone where the type says so. The same holds for property names in options and property dependencies, and an answered property replaces the input of the same name.",
  "inputs programs", "every nesting of typed and untyped values, with and without translation tables",
  "Tests use a few fixed types.",
  ["runtime/rpc.py", "_types.py", "resource.py"], [("translation", "runtime/rpc.py: serialize_properties, translate_output_properties; _types.py: input_type_py_to_pulumi_names, output_type_from_str")])
p("C31", "Children inherit from their parent what they do not set themselves",
  "A resource takes from its parent, unless its own options say otherwise, the protect flag, the providers, the aliases implied by the parent's aliases and the parent's transformations; own transformations run before inherited ones, in order, each on the result of the previous.",
  "programs inputs", "every parent chain and option combination",
  "Tests sample a few two-level hierarchies.",
  ["resource.py", "urn.py"], [("inheritance", "resource.py: Resource.__init__, inherited_child_alias, collapse_alias_to_urn")])
p("C32", "The provider used is the explicit one, else the package's inherited one",
  "A resource is registered with the provider given explicitly for it, else with the provider its parent or options list for its own package, and never with a provider of another package; functions follow the same rule through their options and parent. Options given as an explicit provider, a list or a dictionary of providers are treated alike.",
  "programs inputs", "every way of passing providers, every package",
  "Tests sample few combinations.",
  ["resource.py", "runtime/invoke.py", "runtime/resource.py"], [("selection", "resource.py: Resource.__init__, Resource._get_providers, get_provider; runtime/invoke.py: invoke; runtime/resource.py: register_resource")])
p("C33", "A program runs under one root stack whose outputs are registered",
  "A program runs under exactly one root stack resource, which is the default parent of resources without one, and the stack's exported outputs are registered with the engine on every normal and failing exit of the program body, after deep serialization of exported values.",
  "programs fault_sequences", "every program, normal or raising",
  "Tests cover a normal run.",
  ["runtime/stack.py", "runtime/settings.py"], [("stack lifecycle", "runtime/stack.py: Stack.__init__, run_pulumi_func, run_in_stack")])
p("C34", "Mock monitors answer every request the SDK can send",
  "The mock monitor used for unit-testing programs answers every engine request the SDK can issue, hands the user's mock the request's type, name, inputs, provider and id, and returns the mock's result with the fields the SDK reads, reporting support for no feature it does not implement.",
  "programs", "every request kind",
  "Each request kind has to be driven by a program; tests drive few.",
  ["runtime/mocks.py", "runtime/resource.py", "runtime/invoke.py"], [("mock stub", "runtime/mocks.py: MockMonitor, MockEngine")])
p("C35", "A failing program is reported and exits with an error",
  "When the user's program raises, the language host process reports the error and exits with a non-zero status the engine recognises, runs on every error path, and still waits for outstanding requests; a program that completes exits normally. The run configuration given on the command line (project, stack, parallelism, preview flag, monitor, engine, organization, root directory) all reaches the runtime.",
  "fault_sequences configurations", "every exception kind and every argument",
  "The executable is not run by unit tests.",
  ["sdk/python/cmd/pulumi-language-python-exec", "runtime/stack.py"], [("exit handling", "sdk/python/cmd/pulumi-language-python-exec: main")])
p("C36", "Engine features are used only when the engine reports them",
  "Wire encodings that older engines do not understand - secret envelopes, resource references, output values, structured aliases - are used only after the engine has reported support for the feature, and each feature query asks for the feature it names and treats an unimplemented answer as not supported.",
  "configurations", "every combination of supported features",
  "Tests run with one fixed feature set.",
  ["runtime/settings.py", "runtime/rpc.py"], [("feature queries", "runtime/settings.py: monitor_supports_feature and friends"), ("gates", "runtime/rpc.py: serialize_property")])
p("C37", "Resource names and identifiers form well-formed URNs",
  "A URN built by the SDK from its parts consists of the scheme, stack, project, qualified type (parent types prefixed, except for the root stack type) and name separated as the engine separates them, and taking a URN apart yields the same parts.",
  "inputs", "every combination of parts, with and without parent",
  "Tests use a few literal URNs.",
  ["urn.py", "resource.py", "runtime/rpc.py"], [("construction and parsing", "urn.py, resource.py: create_urn, runtime/rpc.py: _parse_resource_reference")])

p("C38", "Input values reach the engine unchanged, in place",
  "Every known value in the inputs of a resource registration, read, function call or method call is sent at the position and under the key where the program put it, however outputs, awaitables, lists, dictionaries and input classes are nested, with nothing dropped, duplicated or moved.",
  "inputs programs", "every nesting of plain values, outputs, awaitables, lists, dictionaries and input classes, with every engine feature on or off",
  "Tests serialize a few literal dictionaries; the rule quantifies over nestings and feature combinations.",
  ["runtime/rpc.py", "runtime/resource.py", "runtime/invoke.py"], [("serialization of input values", "runtime/rpc.py: serialize_properties, serialize_property")])
p("C39", "CLI answers are decoded whichever optional fields are absent",
  "Every answer the CLI may give to a stack listing, plugin listing, update history or configuration query is decoded without error, whichever of its optional fields the CLI leaves out and however many entries it has. Each entry appears once, in the CLI's order, with the value of every field under the matching attribute, times parsed, and a field that was left out reads as missing.",
  "inputs", "every entry count and every subset of the optional fields the CLI may omit",
  "Tests need a live CLI with particular stacks, plugins and configuration to see each optional field absent.",
  ["automation/_local_workspace.py", "automation/_stack.py", "automation/_config.py"], [("JSON decoding", "automation/_local_workspace.py: list_stacks, list_plugins, get_config, get_all_config; automation/_stack.py: history, info"), ("the CLI's answer types", "pkg/cmd/pulumi/stack_history.go, stack_ls.go, plugin_ls.go, config.go")])

p("C40", "The engine's answers reach the program unchanged",
  "Every property the engine answers for a registered, read or rehydrated resource, a method call or a function call is exposed with exactly the value answered, falsy and empty values included, each element in its place at any nesting. Where a property was also given as an input the engine's value wins; in an update a property the engine leaves out holds the program's input; properties the resource does not declare are ignored. The dependencies the engine reports for a resource's or a call's results are attached to those outputs and come back when they are used as inputs.",
  "inputs", "every answered value (including falsy, empty and nested ones), with and without an input of the same name, in update and preview",
  "Tests answer with a few truthy strings; a value treated as missing because it is falsy, or a dropped dependency set, only shows for particular answers.",
  ["runtime/rpc.py", "runtime/resource.py", "runtime/invoke.py"], [("decoding and resolving", "runtime/rpc.py: deserialize_property, translate_output_properties, resolve_outputs, resolve_properties"), ("requests", "runtime/resource.py: register_resource, read_resource, get_resource; runtime/invoke.py: invoke, call")])


if __name__ == "__main__":
    import json
    import os
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    import sys
    sys.path.insert(0, d)
    from rules import REGISTRY, NOT_APPLICABLE, NOTES
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in REGISTRY:
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                           "technique": NOTES.get(i, ("interprocedural path-sensitive abstract interpretation of the SDK source",))[0],
                           "level": "other",
                           "level_note": NOTES.get(i, ("", "Sound up to the modelled Python subset, library models and bounded shapes listed in the evidence; analysis limits become undecided obligations, never alarms."))[-1]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no static check has been built for it yet")})
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast,sys; sys.exit(0)\"", "checks": checks, "not_applicable": na},
              open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
