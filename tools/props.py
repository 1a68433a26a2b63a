"""The list of properties: writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "sdk/python/lib/pulumi/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": [L + f if not f.startswith("sdk") else f for f in files],
                           "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}))


prop("C01", "Output values compose without losing value, secrecy, unknownness or dependencies",
     "An output built from other outputs (by apply, all, concat, from_input, secret, unsecret, indexing or attribute access, over any nesting of lists, dictionaries and awaitables) resolves to the value obtained by computing on the resolved parts. It is secret exactly when any part that contributed is secret (unless secrecy was explicitly removed), known exactly when every contributing part is, and depends on every resource any contributing part depends on. A failure in any part or callback becomes the failure of the whole, never a value.",
     ["inputs", "schedules"], "every expression over outputs (nesting, containers, callbacks that return plain values, awaitables or outputs, failing callbacks), preview or update, every order in which the parts resolve",
     "Existing tests sample a few dozen shapes with immediately resolved parts; the law is over all nestings, all combinations of known/secret/failed and all resolution orders.",
     ["output.py"], [("apply / from_input / all / secret / unsecret", "output.py: Output"), ("unknown detection", "output.py: contains_unknowns")],
     ["Output.future, is_known, is_secret, resources"])
prop("C02", "Callbacks run once, and in a preview only on values that are known",
     "In an update the callback of every transformed output runs exactly once with the resolved value. In a preview it runs (once) only if the value is fully known, unless it was declared to accept unknowns, in which case an unknown input reaches it as the unknown marker and never as a made-up concrete value. A callback never runs when its input failed.",
     ["inputs", "configurations", "schedules"], "every expression, preview and update, every resolution order",
     "Tests check single applies with one unknown; the property is about every composition and about what each callback was given.",
     ["output.py"], [("run-with-unknowns gate", "output.py: Output.apply")], ["arguments seen by the callbacks"])
prop("C03", "Requests carry exactly the inputs: secrets marked, unknowns as unknowns",
     "The property values sent to the engine equal the resolved inputs, under the resource's key translation, with nulls, assets, archives and resource references encoded as the protocol says. A secret value is sent wrapped as a secret whenever the engine supports secrets, an unknown value is sent as the unknown marker and never as a concrete one, and each property is sent with every resource it depends on. An input that fails to resolve means the request is never sent.",
     ["inputs", "configurations", "schedules"], "every input value (nested containers, outputs, awaitables, assets, archives, resources, custom key translations), every combination of negotiated engine features, preview and update",
     "The serialisation tests check one shape at a time; the composition of wrappers with containers, features and preview mode is unbounded.",
     ["runtime/rpc.py", "runtime/resource.py", "output.py"], [("property serialisation", "runtime/rpc.py: serialize_properties, serialize_property")], ["RegisterResource request"])
prop("C04", "Outputs carry exactly what the engine answered, with its secrets and unknowns",
     "Every property of an engine answer reaches the program as the value the wire form denotes: secrets anywhere inside a property make that property's output secret and never disappear, unknown markers survive in previews as unknown, assets, archives and references are rebuilt, and engine-internal keys are not exposed. In a preview a property the engine did not return is unknown; in an update it falls back to the input, with the same secrecy.",
     ["inputs", "configurations"], "every engine answer (nested lists, structs, secrets, unknowns, assets, archives, references, output values, missing keys), preview and update",
     "Tests decode a handful of documents; nesting of secrets, unknowns and containers is unbounded.",
     ["runtime/rpc.py"], [("property deserialisation", "runtime/rpc.py: deserialize_property"), ("resolution of outputs", "runtime/rpc.py: resolve_outputs, translate_output_properties")], ["resource output properties"])
prop("C05", "Every output of a resource settles: resolved if registered, failed if not",
     "Once the engine has answered (or refused) a resource's registration, read or lookup, every output of the resource - its URN, its ID and each property - settles: it resolves if the engine answered and fails if it did not. No output of a finished registration stays pending, whatever the answer looks like, so nothing that awaits it can wait for ever.",
     ["programs", "schedules", "fault_sequences", "inputs"], "every program, every order of engine answers, every set of refused registrations, well-formed and malformed answers",
     "Unit tests inspect chosen outputs of successful runs; a forgotten rejection path shows only as a hang under a particular failure.",
     ["runtime/resource.py", "runtime/rpc.py", "resource.py"], [("resolver bookkeeping", "runtime/resource.py: register_resource, read_resource, get_resource"), ("rejection", "runtime/rpc.py: resolve_outputs_due_to_exception")], ["resource outputs after the run"])
prop("C06", "A registration is sent only after everything it refers to is registered",
     "A resource's request reaches the engine once, after the stack, its parent, its provider(s), and every resource that its explicit dependencies or input values refer to have been registered successfully. The only exception is a dependency that itself waits for the resource.",
     ["programs", "schedules"], "every program over custom, component, remote component, provider, read and looked-up resources, and every order in which the engine answers",
     "Tests run a fixed program under one accidental order of answers; ordering is a property of all interleavings.",
     ["runtime/resource.py", "runtime/rpc.py", "runtime/resource_cycle_breaker.py"], [("awaiting of dependencies", "runtime/resource.py: prepare_resource")], ["order of requests and answers at the monitor"])
prop("C07", "A registration names every resource it depends on, and nothing else",
     "The dependencies a request lists are exactly the resources its explicit dependencies and input values refer to, where a local component stands for the resources under it, and each property lists those its value refers to. A dependency is left out only when it waits for the resource itself.",
     ["programs", "schedules"], "every program, every order of answers, preview and update",
     "Dependency sets are checked for a few small fixed programs; component expansion, cycles and laziness multiply.",
     ["runtime/resource.py", "runtime/rpc.py"], [("dependency expansion", "runtime/rpc.py: _expand_dependencies; runtime/resource.py: prepare_resource")], ["dependencies and propertyDependencies of requests"])
prop("C08", "A program never deadlocks on its own dependencies",
     "Whatever parents, dependencies, providers and inputs the resources of a program have among each other, the program finishes once the engine has answered every request: resources never wait for each other in a circle.",
     ["programs", "schedules"], "every program and every order in which tasks and answers interleave",
     "One test covers one cycle shape; deadlocks depend on the whole wait graph and on timing.",
     ["runtime/resource_cycle_breaker.py", "runtime/rpc.py", "runtime/resource.py"], [("cycle detection over remembered waits", "runtime/resource_cycle_breaker.py: declare_dependency")], ["termination of the run"])
prop("C09", "A run succeeds only if everything in it did, and failures always surface",
     "The program run ends successfully only when every resource was registered and nothing is in flight, and it ends with an error when any registration fails, any callback raises or the program raises; the error says which failure it was. Resources that depend on something failed are never sent, their outputs fail too, and no spurious error is reported.",
     ["programs", "schedules", "fault_sequences"], "every program, every set of failing registrations and engine loss, every order of answers",
     "Tests fail one registration in one program; whether a failure is lost depends on who is awaiting what when it strikes.",
     ["runtime/stack.py", "runtime/rpc_manager.py", "runtime/resource.py"], [("collection of unhandled failures", "runtime/rpc_manager.py"), ("run to quiescence", "runtime/stack.py: wait_for_rpcs")], ["outcome of the run"])
prop("C10", "Every resource option given by the program reaches the engine unchanged",
     "Each option of a resource (parent, protection, versions and plugin locations, ignored and replacing properties, secret outputs, deletion policies, timeouts, import and read IDs, and so on) appears in the request exactly as given, by default as the protocol's default, with property names translated the way input names are. Protection is inherited from the parent unless given.",
     ["inputs", "configurations"], "every combination of resource kinds and options",
     "Tests check one option per program; combinations, inheritance and default handling are not explored.",
     ["resource.py", "runtime/resource.py"], [("request building", "runtime/resource.py: register_resource"), ("inheritance", "resource.py: Resource.__init__")], ["RegisterResource / ReadResource requests"])
prop("C11", "Each resource is managed by the right provider",
     "A resource is sent with the provider it names; otherwise the one its own or the nearest ancestor's provider list has for its package; otherwise none. A remote component is sent every provider it was given, by package.",
     ["programs", "configurations"], "every tree of resources with any placement of provider options",
     "Tests check two-level trees with a single package.",
     ["resource.py", "runtime/resource.py"], [("provider inheritance", "resource.py: Resource.__init__"), ("provider references", "runtime/resource.py: prepare_resource")], ["provider / providers of requests"])
prop("C12", "Merging resource options is lawful and loses nothing",
     "Merging two sets of resource (or invoke) options keeps every setting that only one of them has, lets the second win for single-valued settings, and concatenates or unions collection-valued ones in order. Neither argument is changed, merging with nothing is the identity, and merging is associative.",
     ["inputs"], "every pair and triple of option sets, in every form each option may be given (absent, single, list, dictionary, output)",
     "Tests check a few pairs; the laws quantify over all combinations of forms.",
     ["resource.py", "invoke.py"], [("merge", "resource.py: ResourceOptions.merge; invoke.py: InvokeOptions.merge")], ["the merged options and what they make the engine receive"])
prop("C13", "Aliases cover every former identity of a resource and of its ancestors",
     "The aliases sent for a resource are the URNs its alias specifications denote (missing parts taken from the resource itself) and, for a child, every combination of its own former identities with those inherited from its parent. None is lost, none is invented.",
     ["inputs", "programs"], "every tree of resources with any alias specifications (URN, name, type, parent, stack, project)",
     "Tests check single aliases at one level.",
     ["resource.py", "runtime/resource.py"], [("alias computation", "resource.py: all_aliases, collapse_alias_to_urn, inherited_child_alias")], ["aliases of requests"])
prop("C14", "Transformations apply once, inside out, and decide what is sent",
     "Every transformation of a resource, then of each ancestor outwards, then of the stack, runs exactly once per resource, each seeing the result of the previous; what is registered is the final result. A transformation sees the resource's name and type, one that returns nothing changes nothing, and changing a resource's parent is refused.",
     ["programs"], "every tree of resources and placement of transformations",
     "Tests use fixed trees and transformations that commute.",
     ["resource.py", "runtime/stack.py"], [("transformation loop", "resource.py: Resource.__init__"), ("inheritance", "resource.py: collapse_transformations")], ["requests, and calls of the transformations"])
prop("C15", "Multi-language components receive and return exactly what the caller said",
     "A component constructed (or a method called) on behalf of another program receives inputs with the secrecy, unknownness and dependencies the caller stated, and the options of the request; the answer carries its URN, its state and the dependencies of each property. One request never influences another, a failed construction is reported as an error, and preview, project, stack and configuration are those of the request.",
     ["inputs", "histories", "fault_sequences"], "every Construct and Call request (nested values, dependencies, options) and every sequence of requests, including failing ones",
     "Tests check single requests with hand-made inputs and never sequences after failures.",
     ["provider/server.py", "provider/provider.py"], [("request handling", "provider/server.py: ProviderServicer.Construct, Call")], ["arguments given to the provider, ConstructResponse, CallResponse"])
prop("C16", "Function invocations send resolved arguments and return the engine's result",
     "An invocation or a method call sends the token, the fully resolved arguments, the provider and version options of the caller, after everything they wait for; its result is the engine's, with unknowns, secrets and dependencies preserved. Reported failures raise an error naming the function and the (first) problem, and results are never mixed between concurrent calls.",
     ["inputs", "schedules", "fault_sequences"], "every invocation (blocking or not), arguments, options, answers, failures, orders of answers",
     "Tests exercise single calls with resolved arguments.",
     ["runtime/invoke.py", "invoke.py"], [("invocation", "runtime/invoke.py: invoke, call")], ["Invoke / Call requests and what the program gets"])
prop("C17", "Stack outputs are exactly what the program exported",
     "When a program finishes, the stack's outputs are exactly what it exported, the last export of a name winning: plain data mapped to itself, resources and objects to their properties, outputs to their values with secrecy and unknownness kept, things that contain themselves cut off, names and members starting with an underscore left out. They are sent once, when the program has run (also if it raised: then with what it had exported), and a component's registered outputs are sent once, as given.",
     ["inputs", "programs"], "every exported value (nested containers, outputs, resources, objects, cycles)",
     "Tests export a few fixed shapes.",
     ["runtime/stack.py"], [("massaging of exports", "runtime/stack.py: massage, Stack.__init__")], ["RegisterResourceOutputs of the stack"])
prop("C18", "A stack reference returns the referenced outputs and keeps their secrets",
     "Reading an output of a stack reference gives its value in the referenced stack, or nothing (or, if required, a failure) when it is absent; it is secret when that output is secret, and when which ones are secret is unknown every output counts as secret.",
     ["inputs", "configurations"], "every set of outputs and secret names, known and unknown, preview and update",
     "Tests read one or two outputs of a fixed reference.",
     ["stack_reference.py"], [("secrecy by name", "stack_reference.py: StackReference")], ["outputs of the reference"])
prop("C19", "Configuration values are read as written, validated, and secret when asked",
     "A configuration lookup returns the value stored under exactly the namespaced key, from the first source that has it: what the program set, then the key's own PULUMI_CONFIG_ environment variable, then the PULUMI_CONFIG bag. It gives the default only when no source has the key, raises an error naming the key when the key is required and absent or its text is not of the asked type, and converts exactly the valid texts of each type (booleans, numbers, JSON, null included) to the values they denote. Secret lookups return secret outputs whose value equals that of the plain lookup, and a key is known to be secret exactly when it was last declared so.",
     ["inputs", "histories"], "every stored text, key and type; every sequence of changes and lookups",
     "Tests sample a few texts per type.",
     ["config.py", "runtime/config.py"], [("lookup and conversion", "config.py: Config")], ["values and errors returned"])
prop("C20", "Dynamic providers run the program's code with the right data",
     "Each engine request to a dynamic resource provider runs, once, the operation of exactly the provider object the program attached (the one in the new inputs; the old one where the new is not known yet), with the stated ID, old state and new inputs, and answers with its result, every part of it, absent parts filled in as documented and the provider kept in the outputs; a failing operation fails the request. The provider text a program registers is a faithful encoding of that object, the same in every process and whatever the order of its dictionaries and sets, however many resources a program has, and registering it leaves the program's own properties alone.",
     ["inputs", "histories", "fault_sequences"], "every sequence of engine requests, every result (present, absent or partial fields), failures",
     "The only test checks one broken provider.",
     ["dynamic/dynamic.py", "dynamic/__main__.py"], [("provider serialisation and dispatch", "dynamic/__main__.py: DynamicResourceProviderServicer")], ["gRPC answers of the dynamic provider"])
prop("C21", "Typed inputs and outputs keep their data under name translation and rebuilding",
     "A typed input object is sent as exactly the fields that were set, under their wire names, as is a dict in its place; the keys of a declared mapping are the user's and stay as they are. A typed output is rebuilt so that every declared field is readable under its Python name (and, for classes that are dicts, under its mapping key), nested lists and mappings included; what is not declared is dropped, integers and enumerations are converted, nothing else changes; a dict, a list or an enumeration value that does not fit the declared type is refused. Unknowns and secrets stay so, and Output.from_input keeps the class and the fields of what it lifts.",
     ["inputs"], "every declared shape (nested, optional, inherited, lists, mappings, enums) and every value of it",
     "Tests define a few classes.",
     ["_types.py", "runtime/rpc.py", "output.py"], [("typed classes", "_types.py: input_type, output_type"), ("translation", "runtime/rpc.py: translate_output_properties")], ["wire values and objects"])
prop("C22", "References resolve to the best registered version of a package",
     "A resource reference is rebuilt, with its whole name, type and URN, by the highest of the registered modules (or packages, for providers) of its type that fit the requested version, that is: that have the same major version and a minor and patch number no lower (a request or a registration without a version fits everything); it becomes its ID (or, if it has none, its URN) only when nothing registered fits. Registering the same version twice is refused, registration order does not matter.",
     ["histories", "inputs"], "every sequence of registrations and references",
     "Tests register one or two versions in one order.",
     ["runtime/rpc.py"], [("registries", "runtime/rpc.py: register_resource_package, get_resource_package")], ["deserialised references"])
prop("C23", "Optional engine features are used exactly when the engine has them",
     "The program asks the engine about an optional feature until it has an answer and never again after, treats an engine that does not know the question as lacking it, fails the run when the question itself fails, and uses secrets, references and output values in requests and outputs exactly when they are supported.",
     ["configurations", "programs"], "every subset of supported features and programs using them",
     "Tests hard-wire one feature set.",
     ["runtime/settings.py", "runtime/rpc.py"], [("feature queries", "runtime/settings.py: monitor_supports_feature")], ["SupportsFeature calls and request contents"])
prop("C24", "Automation commands pass every setting to the engine's CLI, exactly once",
     "Each automation operation runs the CLI with the operation's own command and precisely the flags its arguments denote, in the workspace directory and environment, on the selected stack; absent arguments give no flag. The result reports exactly what the CLI produced, failures raise the error that their text denotes, and temporary resources are cleaned up.",
     ["inputs", "configurations", "fault_sequences"], "every operation and combination of arguments; every CLI outcome",
     "The tests that would need the CLI cannot run; none looks at argument lists.",
     ["automation/_stack.py", "automation/_cmd.py", "automation/errors.py"], [("argument building", "automation/_stack.py")], ["argv, cwd, env of the CLI; results and errors"])
prop("C25", "Project and stack settings survive being written and read back",
     "Settings written to a workspace and read back are equal, in every format the workspace accepts, and reading never changes the file; writing settings preserves every field it was given. The right file is chosen for the stack name, including qualified names.",
     ["inputs", "histories"], "every settings object and sequence of reads and writes",
     "Tests read fixed files.",
     ["automation/_local_workspace.py", "automation/_project_settings.py", "automation/_stack_settings.py"], [("round trip", "automation/_local_workspace.py: save_* / *_settings")], ["files and settings objects"])
prop("C26", "Workspace operations act like the map they present",
     "Reading, setting and removing configuration, environment variables, plugins, stacks and outputs through a workspace behaves as one consistent store per stack: what was set is read back with its secrecy, removal removes only what was named, and one stack's operations never touch another's. Inline programs run with the environment of their own run and leave nothing behind.",
     ["histories", "inputs", "fault_sequences"], "every sequence of workspace operations against a CLI that behaves as a key-value store",
     "Needs the CLI; not exercised by the stable tests at all.",
     ["automation/_local_workspace.py", "automation/_stack.py", "automation/_server.py"], [("workspace", "automation/_local_workspace.py: LocalWorkspace")], ["results of operations, CLI calls"])
prop("C28", "Under mocks, programs observe what the mock returned",
     "With mocks installed, each resource and call is presented to the mock exactly once with its type, name, inputs, provider and ID, and the program's outputs are exactly the state and ID the mock returned; resource lookups find what was registered before. Failures of the mock surface.",
     ["programs", "inputs"], "every program and mock behaviour",
     "Tests check a single program with fixed mocks.",
     ["runtime/mocks.py"], [("mock monitor", "runtime/mocks.py: MockMonitor")], ["arguments of the mock, outputs of resources"])
prop("C29", "Log messages reach the engine with the right severity and resource",
     "Each message logged by a program reaches the engine exactly once with its severity, text, stream and ephemerality, attributed to the resource it names, before a run that succeeds (or whose program raised) ends; messages that name no resource reach it at once.",
     ["inputs", "schedules"], "every sequence of log calls with and without resources",
     "No test looks at log requests.",
     ["log.py"], [("log streaming", "log.py: _log")], ["Log requests at the engine"])

prop("C30", "The launcher runs the program as asked and its exit tells how the run ended",
     "A program started by the language host runs once, as the main program, in the stated directory with exactly the stated arguments, and sees the project, stack, organization, preview flag, parallelism, configuration and secret keys it was started with. The process exits with 0 exactly when the run succeeded; a RunError is logged with its message alone and exits with 1; any other failure is logged with the trace of the program's own code and exits with 32, the code for failures the user has been told about; a program that exits by itself ends with its own code, and is not reported as anything else.",
     ["inputs"], "every program, way to start it, environment and way to end",
     "No stable test starts the launcher.",
     ["sdk/python/cmd/pulumi-language-python-exec", "runtime/stack.py", "runtime/settings.py", "runtime/config.py"], [("launcher", "sdk/python/cmd/pulumi-language-python-exec")],
     ["exit code, output, messages and registrations at the engine"])

CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        c = CLAIMED.get(p["id"])
        if c and not c.get("na"):
            checks.append({"property": p["id"], "quick_cmd": "./check.py %s" % p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough ./check.py %s thorough" % p["id"],
                           "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
        else:
            na.append({"property": p["id"], "reason": (c or {}).get("na", "specification and conformance check under construction")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
