// generated by gen.py from the protocol tables; do not edit
#![allow(unused_variables, clippy::all)]
use crate::types::*;
use bsp_types::*;
use lsp_types::{TextDocumentIdentifier, Url};
use serde_json::Value;

pub fn structs() -> Vec<Struct> {
    vec![
        Struct { name: "BuildTargetCapabilities", redo: redo::<BuildTargetCapabilities>, view: |t| view::<BuildTargetCapabilities>(t, |x| vec![("canCompile", enc(&x.can_compile())), ("canTest", enc(&x.can_test())), ("canRun", enc(&x.can_run())), ("canDebug", enc(&x.can_debug()))]), fields: vec![
            Field { member: "canCompile", kind: "req", ty: "bool" },
            Field { member: "canTest", kind: "req", ty: "bool" },
            Field { member: "canRun", kind: "req", ty: "bool" },
            Field { member: "canDebug", kind: "req", ty: "bool" },
        ] },
        Struct { name: "BuildTargetCleanCache", redo: redo::<BuildTargetCleanCache>, view: |t| view::<BuildTargetCleanCache>(t, |x| vec![("targets", enc(&x.targets()))]), fields: vec![
            Field { member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>" },
        ] },
        Struct { name: "BuildTargetCleanCacheResult", redo: redo::<BuildTargetCleanCacheResult>, view: |t| view::<BuildTargetCleanCacheResult>(t, |x| vec![("message", enc(&x.message())), ("cleaned", enc(&x.cleaned()))]), fields: vec![
            Field { member: "message", kind: "opt", ty: "Option<String>" },
            Field { member: "cleaned", kind: "req", ty: "bool" },
        ] },
        Struct { name: "BuildTargetCompile", redo: redo::<BuildTargetCompile>, view: |t| view::<BuildTargetCompile>(t, |x| vec![("target", enc(&x.target())), ("originId", enc(&x.origin_id())), ("arguments", enc(&x.arguments()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "arguments", kind: "opt", ty: "Option<String>" },
        ] },
        Struct { name: "BuildTargetCompileResult", redo: redo::<BuildTargetCompileResult>, view: |t| view::<BuildTargetCompileResult>(t, |x| vec![("originId", enc(&x.origin_id())), ("statusCode", enc(&x.status_code())), ("dataKind", enc(&x.data_kind())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "statusCode", kind: "req", ty: "usize" },
            Field { member: "dataKind", kind: "opt", ty: "Option<String>" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "BuildTargetDependencyModules", redo: redo::<BuildTargetDependencyModules>, view: |t| view::<BuildTargetDependencyModules>(t, |x| vec![("targets", enc(&x.targets()))]), fields: vec![
            Field { member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>" },
        ] },
        Struct { name: "BuildTargetDependencyModulesResult", redo: redo::<BuildTargetDependencyModulesResult>, view: |t| view::<BuildTargetDependencyModulesResult>(t, |x| vec![("items", enc(&x.items()))]), fields: vec![
            Field { member: "items", kind: "req", ty: "Vec<DependencyModulesItem>" },
        ] },
        Struct { name: "DependencyModulesItem", redo: redo::<DependencyModulesItem>, view: |t| view::<DependencyModulesItem>(t, |x| vec![("target", enc(&x.target())), ("modules", enc(&x.modules()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "modules", kind: "req", ty: "Vec<DependencyModule>" },
        ] },
        Struct { name: "DependencyModule", redo: redo::<DependencyModule>, view: |t| view::<DependencyModule>(t, |x| vec![("name", enc(&x.name())), ("version", enc(&x.version())), ("dataKind", enc(&x.data_kind()))]), fields: vec![
            Field { member: "name", kind: "req", ty: "String" },
            Field { member: "version", kind: "req", ty: "String" },
            Field { member: "dataKind", kind: "opt", ty: "Option<String>" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "BuildTargetDependencySources", redo: redo::<BuildTargetDependencySources>, view: |t| view::<BuildTargetDependencySources>(t, |x| vec![("textDocument", enc(&x.text_document()))]), fields: vec![
            Field { member: "textDocument", kind: "req", ty: "TextDocumentIdentifier" },
        ] },
        Struct { name: "BuildTargetDependencySourcesResult", redo: redo::<BuildTargetDependencySourcesResult>, view: |t| view::<BuildTargetDependencySourcesResult>(t, |x| vec![]), fields: vec![
            Field { member: "items", kind: "req", ty: "Vec<DependencySourcesItem>" },
        ] },
        Struct { name: "DependencySourcesItem", redo: redo::<DependencySourcesItem>, view: |t| view::<DependencySourcesItem>(t, |x| vec![("target", enc(&x.target())), ("sources", enc(&x.sources()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "sources", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "BuildTargetDidChange", redo: redo::<BuildTargetDidChange>, view: |t| view::<BuildTargetDidChange>(t, |x| vec![("changes", enc(&x.changes))]), fields: vec![
            Field { member: "changes", kind: "req", ty: "Vec<BuildTargetEvent>" },
        ] },
        Struct { name: "BuildTargetEvent", redo: redo::<BuildTargetEvent>, view: |t| view::<BuildTargetEvent>(t, |x| vec![("target", enc(&x.target)), ("kind", enc(&x.kind)), ("data", enc(&x.data))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "kind", kind: "opt", ty: "Option<BuildTargetEventKind>" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "BuildTargetIdentifier", redo: redo::<BuildTargetIdentifier>, view: |t| view::<BuildTargetIdentifier>(t, |x| vec![("uri", enc(&x.uri()))]), fields: vec![
            Field { member: "uri", kind: "req", ty: "Url" },
        ] },
        Struct { name: "TextDocumentInverseSources", redo: redo::<TextDocumentInverseSources>, view: |t| view::<TextDocumentInverseSources>(t, |x| vec![("textDocument", enc(&x.text_document()))]), fields: vec![
            Field { member: "textDocument", kind: "req", ty: "TextDocumentIdentifier" },
        ] },
        Struct { name: "BuildTargetInverseSourcesResult", redo: redo::<BuildTargetInverseSourcesResult>, view: |t| view::<BuildTargetInverseSourcesResult>(t, |x| vec![]), fields: vec![
            Field { member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>" },
        ] },
        Struct { name: "BuildTargetResources", redo: redo::<BuildTargetResources>, view: |t| view::<BuildTargetResources>(t, |x| vec![("targets", enc(&x.targets()))]), fields: vec![
            Field { member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>" },
        ] },
        Struct { name: "BuildTargetResourcesResult", redo: redo::<BuildTargetResourcesResult>, view: |t| view::<BuildTargetResourcesResult>(t, |x| vec![("items", enc(&x.items()))]), fields: vec![
            Field { member: "items", kind: "req", ty: "Vec<Resources>" },
        ] },
        Struct { name: "Resources", redo: redo::<Resources>, view: |t| view::<Resources>(t, |x| vec![("target", enc(&x.target())), ("resources", enc(&x.resources()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "resources", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "BuildTargetRun", redo: redo::<BuildTargetRun>, view: |t| view::<BuildTargetRun>(t, |x| vec![("target", enc(&x.target())), ("originId", enc(&x.origin_id())), ("arguments", enc(&x.arguments())), ("dataKind", enc(&x.data_kind())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "arguments", kind: "opt", ty: "Option<String>" },
            Field { member: "dataKind", kind: "opt", ty: "Option<String>" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "BuildTargetRunResult", redo: redo::<BuildTargetRunResult>, view: |t| view::<BuildTargetRunResult>(t, |x| vec![("originId", enc(&x.origin_id())), ("statusCode", enc(&x.status_code()))]), fields: vec![
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "statusCode", kind: "req", ty: "usize" },
        ] },
        Struct { name: "BuildTargetSources", redo: redo::<BuildTargetSources>, view: |t| view::<BuildTargetSources>(t, |x| vec![("targets", enc(&x.targets()))]), fields: vec![
            Field { member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>" },
        ] },
        Struct { name: "BuildTargetSourcesResult", redo: redo::<BuildTargetSourcesResult>, view: |t| view::<BuildTargetSourcesResult>(t, |x| vec![("items", enc(&x.items()))]), fields: vec![
            Field { member: "items", kind: "req", ty: "Vec<SourcesCollection>" },
        ] },
        Struct { name: "SourcesCollection", redo: redo::<SourcesCollection>, view: |t| view::<SourcesCollection>(t, |x| vec![("target", enc(&x.target())), ("sources", enc(&x.sources()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "sources", kind: "req", ty: "Vec<Sources>" },
        ] },
        Struct { name: "Sources", redo: redo::<Sources>, view: |t| view::<Sources>(t, |x| vec![("uri", enc(&x.uri())), ("kind", enc(&x.kind())), ("generated", enc(&x.generated()))]), fields: vec![
            Field { member: "uri", kind: "req", ty: "Url" },
            Field { member: "kind", kind: "req", ty: "SourceKind" },
            Field { member: "generated", kind: "req", ty: "bool" },
        ] },
        Struct { name: "BuildTargetTest", redo: redo::<BuildTargetTest>, view: |t| view::<BuildTargetTest>(t, |x| vec![("target", enc(&x.target())), ("originId", enc(&x.origin_id())), ("arguments", enc(&x.arguments())), ("dataKind", enc(&x.data_kind())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "target", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "arguments", kind: "opt", ty: "Option<String>" },
            Field { member: "dataKind", kind: "opt", ty: "Option<String>" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "BuildTargetTestResult", redo: redo::<BuildTargetTestResult>, view: |t| view::<BuildTargetTestResult>(t, |x| vec![("originId", enc(&x.origin_id())), ("statusCode", enc(&x.status_code())), ("dataKind", enc(&x.data_kind())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "statusCode", kind: "req", ty: "usize" },
            Field { member: "dataKind", kind: "opt", ty: "Option<String>" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "ClientCapabilities", redo: redo::<ClientCapabilities>, view: |t| view::<ClientCapabilities>(t, |x| vec![("languageIds", enc(&x.language_ids()))]), fields: vec![
            Field { member: "languageIds", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "DebugSessionStart", redo: redo::<DebugSessionStart>, view: |t| view::<DebugSessionStart>(t, |x| vec![("targets", enc(&x.targets())), ("dataKind", enc(&x.data_kind())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "targets", kind: "dflt", ty: "Vec<BuildTargetIdentifier>" },
            Field { member: "dataKind", kind: "dflt", ty: "String" },
            Field { member: "data", kind: "null", ty: "Value" },
        ] },
        Struct { name: "DebugSessionStartResult", redo: redo::<DebugSessionStartResult>, view: |t| view::<DebugSessionStartResult>(t, |x| vec![]), fields: vec![
            Field { member: "uri", kind: "req", ty: "Url" },
        ] },
        Struct { name: "InitializeBuild", redo: redo::<InitializeBuild>, view: |t| view::<InitializeBuild>(t, |x| vec![("displayName", enc(&x.display_name())), ("version", enc(&x.version())), ("bspVersion", enc(&x.bsp_version())), ("rootUri", enc(&x.root_uri())), ("capabilities", enc(&x.capabilities())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "displayName", kind: "req", ty: "String" },
            Field { member: "version", kind: "empty", ty: "String" },
            Field { member: "bspVersion", kind: "empty", ty: "String" },
            Field { member: "rootUri", kind: "req", ty: "Url" },
            Field { member: "capabilities", kind: "dflt", ty: "ClientCapabilities" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "InitializeBuildResult", redo: redo::<InitializeBuildResult>, view: |t| view::<InitializeBuildResult>(t, |x| vec![("displayName", enc(&x.display_name())), ("version", enc(&x.version())), ("bspVersion", enc(&x.bsp_version())), ("capabilities", enc(&x.capabilities())), ("data", enc(&x.data()))]), fields: vec![
            Field { member: "displayName", kind: "req", ty: "String" },
            Field { member: "version", kind: "req", ty: "String" },
            Field { member: "bspVersion", kind: "req", ty: "String" },
            Field { member: "capabilities", kind: "req", ty: "ServerCapabilities" },
            Field { member: "data", kind: "opt", ty: "Option<Value>" },
        ] },
        Struct { name: "LogMessage", redo: redo::<LogMessage>, view: |t| view::<LogMessage>(t, |x| vec![("type", enc(&x.typ)), ("task", enc(&x.task)), ("originId", enc(&x.origin_id)), ("message", enc(&x.message))]), fields: vec![
            Field { member: "type", kind: "req", ty: "MessageType" },
            Field { member: "task", kind: "opt", ty: "Option<TaskId>" },
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "message", kind: "req", ty: "String" },
        ] },
        Struct { name: "ShowMessage", redo: redo::<ShowMessage>, view: |t| view::<ShowMessage>(t, |x| vec![("type", enc(&x.typ)), ("message", enc(&x.message)), ("task", enc(&x.task)), ("originId", enc(&x.origin_id))]), fields: vec![
            Field { member: "type", kind: "req", ty: "MessageType" },
            Field { member: "message", kind: "req", ty: "String" },
            Field { member: "task", kind: "opt", ty: "Option<TaskId>" },
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
        ] },
        Struct { name: "CompileProvider", redo: redo::<CompileProvider>, view: |t| view::<CompileProvider>(t, |x| vec![]), fields: vec![
            Field { member: "languageIds", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "TestProvider", redo: redo::<TestProvider>, view: |t| view::<TestProvider>(t, |x| vec![]), fields: vec![
            Field { member: "languageIds", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "RunProvider", redo: redo::<RunProvider>, view: |t| view::<RunProvider>(t, |x| vec![]), fields: vec![
            Field { member: "languageIds", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "DebugProvider", redo: redo::<DebugProvider>, view: |t| view::<DebugProvider>(t, |x| vec![]), fields: vec![
            Field { member: "languageIds", kind: "req", ty: "Vec<String>" },
        ] },
        Struct { name: "PublishDiagnostics", redo: redo::<PublishDiagnostics>, view: |t| view::<PublishDiagnostics>(t, |x| vec![]), fields: vec![
            Field { member: "textDocument", kind: "req", ty: "TextDocumentIdentifier" },
            Field { member: "buildTarget", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "originId", kind: "opt", ty: "Option<String>" },
            Field { member: "diagnostics", kind: "req", ty: "Vec<Diagnostic>" },
            Field { member: "reset", kind: "req", ty: "bool" },
        ] },
        Struct { name: "ServerCapabilities", redo: redo::<ServerCapabilities>, view: |t| view::<ServerCapabilities>(t, |x| vec![("compileProvider", enc(&x.compile_provider())), ("testProvider", enc(&x.test_provider())), ("runProvider", enc(&x.run_provider())), ("debugProvider", enc(&x.debug_provider())), ("inverseSourcesProvider", enc(&x.inverse_sources_provider())), ("dependencySourcesProvider", enc(&x.dependency_sources_provider())), ("dependencyModulesProvider", enc(&x.dependency_modules_provider())), ("resourcesProvider", enc(&x.resources_provider())), ("canReload", enc(&x.can_reload())), ("buildTargetChangedProvider", enc(&x.build_target_changed_provider()))]), fields: vec![
            Field { member: "compileProvider", kind: "opt", ty: "Option<CompileProvider>" },
            Field { member: "testProvider", kind: "opt", ty: "Option<TestProvider>" },
            Field { member: "runProvider", kind: "opt", ty: "Option<RunProvider>" },
            Field { member: "debugProvider", kind: "opt", ty: "Option<DebugProvider>" },
            Field { member: "inverseSourcesProvider", kind: "opt", ty: "Option<bool>" },
            Field { member: "dependencySourcesProvider", kind: "opt", ty: "Option<bool>" },
            Field { member: "dependencyModulesProvider", kind: "opt", ty: "Option<bool>" },
            Field { member: "resourcesProvider", kind: "opt", ty: "Option<bool>" },
            Field { member: "canReload", kind: "opt", ty: "Option<bool>" },
            Field { member: "buildTargetChangedProvider", kind: "opt", ty: "Option<bool>" },
        ] },
        Struct { name: "WorkspaceBuildTargetsResult", redo: redo::<WorkspaceBuildTargetsResult>, view: |t| view::<WorkspaceBuildTargetsResult>(t, |x| vec![("targets", enc(&x.targets))]), fields: vec![
            Field { member: "targets", kind: "req", ty: "Vec<BuildTarget>" },
        ] },
        Struct { name: "BuildTarget", redo: redo::<BuildTarget>, view: |t| view::<BuildTarget>(t, |x| vec![("id", enc(&x.id)), ("displayName", enc(&x.display_name)), ("baseDirectory", enc(&x.base_directory)), ("tags", enc(&x.tags)), ("capabilities", enc(&x.capabilities)), ("languageIds", enc(&x.language_ids)), ("dependencies", enc(&x.dependencies))]), fields: vec![
            Field { member: "id", kind: "req", ty: "BuildTargetIdentifier" },
            Field { member: "displayName", kind: "opt", ty: "Option<String>" },
            Field { member: "baseDirectory", kind: "opt", ty: "Option<String>" },
            Field { member: "tags", kind: "req", ty: "Vec<BuildTargetTag>" },
            Field { member: "capabilities", kind: "req", ty: "BuildTargetCapabilities" },
            Field { member: "languageIds", kind: "req", ty: "Vec<String>" },
            Field { member: "dependencies", kind: "req", ty: "Vec<BuildTargetIdentifier>" },
        ] },
        Struct { name: "TaskId", redo: redo::<TaskId>, view: |t| view::<TaskId>(t, |x| vec![]), fields: vec![
            Field { member: "id", kind: "dflt", ty: "String" },
            Field { member: "parents", kind: "empty", ty: "Vec<String>" },
        ] },
        Struct { name: "TaskStart", redo: redo::<TaskStart>, view: |t| view::<TaskStart>(t, |x| vec![("taskId", enc(&x.task_id)), ("eventTime", enc(&x.event_time)), ("message", enc(&x.message)), ("dataKind", enc(&x.data_kind)), ("data", enc(&x.data))]), fields: vec![
            Field { member: "taskId", kind: "dflt", ty: "TaskId" },
            Field { member: "eventTime", kind: "opt", ty: "Option<u32>" },
            Field { member: "message", kind: "empty", ty: "String" },
            Field { member: "dataKind", kind: "none", ty: "TaskDataKind" },
            Field { member: "data", kind: "null", ty: "Value" },
        ] },
        Struct { name: "TaskProgress", redo: redo::<TaskProgress>, view: |t| view::<TaskProgress>(t, |x| vec![("taskId", enc(&x.task_id)), ("eventTime", enc(&x.event_time)), ("message", enc(&x.message)), ("total", enc(&x.total)), ("progress", enc(&x.progress)), ("unit", enc(&x.unit)), ("dataKind", enc(&x.data_kind)), ("data", enc(&x.data))]), fields: vec![
            Field { member: "taskId", kind: "dflt", ty: "TaskId" },
            Field { member: "eventTime", kind: "opt", ty: "Option<u32>" },
            Field { member: "message", kind: "empty", ty: "String" },
            Field { member: "total", kind: "opt", ty: "Option<u32>" },
            Field { member: "progress", kind: "opt", ty: "Option<u32>" },
            Field { member: "unit", kind: "empty", ty: "String" },
            Field { member: "dataKind", kind: "none", ty: "TaskDataKind" },
            Field { member: "data", kind: "null", ty: "Value" },
        ] },
        Struct { name: "TaskFinish", redo: redo::<TaskFinish>, view: |t| view::<TaskFinish>(t, |x| vec![("taskId", enc(&x.task_id)), ("eventTime", enc(&x.event_time)), ("message", enc(&x.message)), ("status", enc(&x.status)), ("dataKind", enc(&x.data_kind)), ("data", enc(&x.data))]), fields: vec![
            Field { member: "taskId", kind: "dflt", ty: "TaskId" },
            Field { member: "eventTime", kind: "opt", ty: "Option<u32>" },
            Field { member: "message", kind: "empty", ty: "String" },
            Field { member: "status", kind: "dflt", ty: "TaskStatus" },
            Field { member: "dataKind", kind: "none", ty: "TaskDataKind" },
            Field { member: "data", kind: "null", ty: "Value" },
        ] },
    ]
}

pub fn constructors() -> Vec<Ctor> {
    vec![
        Ctor { name: "BuildTarget", ctor: "new", args: vec![("id", "BuildTargetIdentifier"), ("displayName", "Option<String>"), ("baseDirectory", "Option<String>"), ("tags", "Vec<BuildTargetTag>"), ("capabilities", "BuildTargetCapabilities"), ("languageIds", "Vec<String>"), ("dependencies", "Vec<BuildTargetIdentifier>")], fixed: None, run: |a| enc(&BuildTarget::new(de::<BuildTargetIdentifier>(&a[0]), de::<Option<String>>(&a[1]), de::<Option<String>>(&a[2]), de::<Vec<BuildTargetTag>>(&a[3]), de::<BuildTargetCapabilities>(&a[4]), de::<Vec<String>>(&a[5]), de::<Vec<BuildTargetIdentifier>>(&a[6]))) },
        Ctor { name: "BuildTarget", ctor: "new_simple", args: vec![("id", "BuildTargetIdentifier"), ("tags", "Vec<BuildTargetTag>"), ("capabilities", "BuildTargetCapabilities"), ("languageIds", "Vec<String>"), ("dependencies", "Vec<BuildTargetIdentifier>")], fixed: None, run: |a| enc(&BuildTarget::new_simple(de::<BuildTargetIdentifier>(&a[0]), de::<Vec<BuildTargetTag>>(&a[1]), de::<BuildTargetCapabilities>(&a[2]), de::<Vec<String>>(&a[3]), de::<Vec<BuildTargetIdentifier>>(&a[4]))) },
        Ctor { name: "BuildTargetCapabilities", ctor: "new", args: vec![("canCompile", "bool"), ("canTest", "bool"), ("canRun", "bool"), ("canDebug", "bool")], fixed: None, run: |a| enc(&BuildTargetCapabilities::new(de::<bool>(&a[0]), de::<bool>(&a[1]), de::<bool>(&a[2]), de::<bool>(&a[3]))) },
        Ctor { name: "BuildTargetCleanCacheResult", ctor: "new", args: vec![("message", "Option<String>"), ("cleaned", "bool")], fixed: None, run: |a| enc(&BuildTargetCleanCacheResult::new(de::<Option<String>>(&a[0]), de::<bool>(&a[1]))) },
        Ctor { name: "BuildTargetCleanCacheResult", ctor: "new_simple", args: vec![("cleaned", "bool")], fixed: None, run: |a| enc(&BuildTargetCleanCacheResult::new_simple(de::<bool>(&a[0]))) },
        Ctor { name: "BuildTargetCompile", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("originId", "Option<String>"), ("arguments", "Option<String>")], fixed: None, run: |a| enc(&BuildTargetCompile::new(de::<BuildTargetIdentifier>(&a[0]), de::<Option<String>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "BuildTargetCompile", ctor: "new_simple", args: vec![("target", "BuildTargetIdentifier")], fixed: None, run: |a| enc(&BuildTargetCompile::new_simple(de::<BuildTargetIdentifier>(&a[0]))) },
        Ctor { name: "BuildTargetCompileResult", ctor: "new", args: vec![("originId", "Option<String>"), ("statusCode", "usize"), ("dataKind", "Option<String>"), ("data", "Option<Value>")], fixed: None, run: |a| enc(&BuildTargetCompileResult::new(de::<Option<String>>(&a[0]), de::<usize>(&a[1]), de::<Option<String>>(&a[2]), de::<Option<Value>>(&a[3]))) },
        Ctor { name: "BuildTargetCompileResult", ctor: "new_simple", args: vec![("statusCode", "usize")], fixed: None, run: |a| enc(&BuildTargetCompileResult::new_simple(de::<usize>(&a[0]))) },
        Ctor { name: "BuildTargetDependencyModulesResult", ctor: "new", args: vec![("items", "Vec<DependencyModulesItem>")], fixed: None, run: |a| enc(&BuildTargetDependencyModulesResult::new(de::<Vec<DependencyModulesItem>>(&a[0]))) },
        Ctor { name: "BuildTargetDependencySources", ctor: "new", args: vec![("textDocument", "TextDocumentIdentifier")], fixed: None, run: |a| enc(&BuildTargetDependencySources::new(de::<TextDocumentIdentifier>(&a[0]))) },
        Ctor { name: "BuildTargetEvent", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("kind", "Option<BuildTargetEventKind>"), ("data", "Option<Value>")], fixed: None, run: |a| enc(&BuildTargetEvent::new(de::<BuildTargetIdentifier>(&a[0]), de::<Option<BuildTargetEventKind>>(&a[1]), de::<Option<Value>>(&a[2]))) },
        Ctor { name: "BuildTargetEvent", ctor: "new_simple", args: vec![("target", "BuildTargetIdentifier")], fixed: None, run: |a| enc(&BuildTargetEvent::new_simple(de::<BuildTargetIdentifier>(&a[0]))) },
        Ctor { name: "BuildTargetIdentifier", ctor: "new", args: vec![("uri", "Url")], fixed: None, run: |a| enc(&BuildTargetIdentifier::new(de::<Url>(&a[0]))) },
        Ctor { name: "BuildTargetResources", ctor: "new", args: vec![("targets", "Vec<BuildTargetIdentifier>")], fixed: None, run: |a| enc(&BuildTargetResources::new(de::<Vec<BuildTargetIdentifier>>(&a[0]))) },
        Ctor { name: "BuildTargetResourcesResult", ctor: "new", args: vec![("items", "Vec<Resources>")], fixed: None, run: |a| enc(&BuildTargetResourcesResult::new(de::<Vec<Resources>>(&a[0]))) },
        Ctor { name: "BuildTargetRun", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("originId", "Option<String>"), ("arguments", "Option<String>"), ("dataKind", "Option<String>"), ("data", "Option<Value>")], fixed: None, run: |a| enc(&BuildTargetRun::new(de::<BuildTargetIdentifier>(&a[0]), de::<Option<String>>(&a[1]), de::<Option<String>>(&a[2]), de::<Option<String>>(&a[3]), de::<Option<Value>>(&a[4]))) },
        Ctor { name: "BuildTargetRun", ctor: "new_simple", args: vec![("target", "BuildTargetIdentifier")], fixed: None, run: |a| enc(&BuildTargetRun::new_simple(de::<BuildTargetIdentifier>(&a[0]))) },
        Ctor { name: "BuildTargetRunResult", ctor: "new", args: vec![("originId", "Option<String>"), ("statusCode", "usize")], fixed: None, run: |a| enc(&BuildTargetRunResult::new(de::<Option<String>>(&a[0]), de::<usize>(&a[1]))) },
        Ctor { name: "BuildTargetSources", ctor: "new", args: vec![("targets", "Vec<BuildTargetIdentifier>")], fixed: None, run: |a| enc(&BuildTargetSources::new(de::<Vec<BuildTargetIdentifier>>(&a[0]))) },
        Ctor { name: "BuildTargetSourcesResult", ctor: "new", args: vec![("items", "Vec<SourcesCollection>")], fixed: None, run: |a| enc(&BuildTargetSourcesResult::new(de::<Vec<SourcesCollection>>(&a[0]))) },
        Ctor { name: "BuildTargetTest", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("originId", "Option<String>"), ("arguments", "Option<String>"), ("dataKind", "Option<String>"), ("data", "Option<Value>")], fixed: None, run: |a| enc(&BuildTargetTest::new(de::<BuildTargetIdentifier>(&a[0]), de::<Option<String>>(&a[1]), de::<Option<String>>(&a[2]), de::<Option<String>>(&a[3]), de::<Option<Value>>(&a[4]))) },
        Ctor { name: "BuildTargetTest", ctor: "new_simple", args: vec![("target", "BuildTargetIdentifier")], fixed: None, run: |a| enc(&BuildTargetTest::new_simple(de::<BuildTargetIdentifier>(&a[0]))) },
        Ctor { name: "BuildTargetTestResult", ctor: "new", args: vec![("originId", "Option<String>"), ("statusCode", "usize"), ("dataKind", "Option<String>"), ("data", "Option<Value>")], fixed: None, run: |a| enc(&BuildTargetTestResult::new(de::<Option<String>>(&a[0]), de::<usize>(&a[1]), de::<Option<String>>(&a[2]), de::<Option<Value>>(&a[3]))) },
        Ctor { name: "BuildTargetTestResult", ctor: "new_simple", args: vec![("statusCode", "usize")], fixed: None, run: |a| enc(&BuildTargetTestResult::new_simple(de::<usize>(&a[0]))) },
        Ctor { name: "ClientCapabilities", ctor: "new", args: vec![("languageIds", "Vec<String>")], fixed: None, run: |a| enc(&ClientCapabilities::new(de::<Vec<String>>(&a[0]))) },
        Ctor { name: "DebugSessionStart", ctor: "new", args: vec![("targets", "Vec<BuildTargetIdentifier>"), ("dataKind", "String"), ("data", "Value")], fixed: None, run: |a| enc(&DebugSessionStart::new(de::<Vec<BuildTargetIdentifier>>(&a[0]), de::<String>(&a[1]), de::<Value>(&a[2]))) },
        Ctor { name: "DebugSessionStartResult", ctor: "new", args: vec![("uri", "Url")], fixed: None, run: |a| enc(&DebugSessionStartResult::new(de::<Url>(&a[0]))) },
        Ctor { name: "DependencyModule", ctor: "new", args: vec![("name", "String"), ("version", "String"), ("dataKind", "Option<String>"), ("data", "Option<Value>")], fixed: None, run: |a| enc(&DependencyModule::new(de::<String>(&a[0]), de::<String>(&a[1]), de::<Option<String>>(&a[2]), de::<Option<Value>>(&a[3]))) },
        Ctor { name: "DependencyModule", ctor: "new_simple", args: vec![("name", "String"), ("version", "String")], fixed: None, run: |a| enc(&DependencyModule::new_simple(de::<String>(&a[0]), de::<String>(&a[1]))) },
        Ctor { name: "DependencyModulesItem", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("modules", "Vec<DependencyModule>")], fixed: None, run: |a| enc(&DependencyModulesItem::new(de::<BuildTargetIdentifier>(&a[0]), de::<Vec<DependencyModule>>(&a[1]))) },
        Ctor { name: "InitializeBuild", ctor: "new", args: vec![("displayName", "String"), ("version", "String"), ("bspVersion", "String"), ("rootUri", "Url"), ("capabilities", "ClientCapabilities"), ("data", "Value")], fixed: None, run: |a| enc(&InitializeBuild::new(de::<String>(&a[0]), de::<String>(&a[1]), de::<String>(&a[2]), de::<Url>(&a[3]), de::<ClientCapabilities>(&a[4]), de::<Value>(&a[5]))) },
        Ctor { name: "InitializeBuild", ctor: "new_simple", args: vec![("displayName", "String"), ("version", "String"), ("bspVersion", "String"), ("rootUri", "Url"), ("capabilities", "ClientCapabilities")], fixed: None, run: |a| enc(&InitializeBuild::new_simple(de::<String>(&a[0]), de::<String>(&a[1]), de::<String>(&a[2]), de::<Url>(&a[3]), de::<ClientCapabilities>(&a[4]))) },
        Ctor { name: "InitializeBuildResult", ctor: "new", args: vec![("displayName", "String"), ("version", "String"), ("bspVersion", "String"), ("capabilities", "ServerCapabilities"), ("data", "Value")], fixed: None, run: |a| enc(&InitializeBuildResult::new(de::<String>(&a[0]), de::<String>(&a[1]), de::<String>(&a[2]), de::<ServerCapabilities>(&a[3]), de::<Value>(&a[4]))) },
        Ctor { name: "InitializeBuildResult", ctor: "new_simple", args: vec![("displayName", "String"), ("version", "String"), ("bspVersion", "String"), ("capabilities", "ServerCapabilities")], fixed: None, run: |a| enc(&InitializeBuildResult::new_simple(de::<String>(&a[0]), de::<String>(&a[1]), de::<String>(&a[2]), de::<ServerCapabilities>(&a[3]))) },
        Ctor { name: "Resources", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("resources", "Vec<String>")], fixed: None, run: |a| enc(&Resources::new(de::<BuildTargetIdentifier>(&a[0]), de::<Vec<String>>(&a[1]))) },
        Ctor { name: "Sources", ctor: "new", args: vec![("uri", "Url"), ("kind", "SourceKind"), ("generated", "bool")], fixed: None, run: |a| enc(&Sources::new(de::<Url>(&a[0]), de::<SourceKind>(&a[1]), de::<bool>(&a[2]))) },
        Ctor { name: "SourcesCollection", ctor: "new", args: vec![("target", "BuildTargetIdentifier"), ("sources", "Vec<Sources>")], fixed: None, run: |a| enc(&SourcesCollection::new(de::<BuildTargetIdentifier>(&a[0]), de::<Vec<Sources>>(&a[1]))) },
        Ctor { name: "TaskFinish", ctor: "new", args: vec![("taskId", "TaskId")], fixed: None, run: |a| enc(&TaskFinish::new(de::<TaskId>(&a[0]))) },
        Ctor { name: "TaskStart", ctor: "new", args: vec![("taskId", "TaskId")], fixed: None, run: |a| enc(&TaskStart::new(de::<TaskId>(&a[0]))) },
        Ctor { name: "TaskId", ctor: "new", args: vec![("id", "String"), ("parents", "Vec<String>")], fixed: None, run: |a| enc(&TaskId::new(de::<String>(&a[0]), de::<Vec<String>>(&a[1]))) },
        Ctor { name: "TextDocumentInverseSources", ctor: "new", args: vec![("textDocument", "TextDocumentIdentifier")], fixed: None, run: |a| enc(&TextDocumentInverseSources::new(de::<TextDocumentIdentifier>(&a[0]))) },
        Ctor { name: "WorkspaceBuildTargetsResult", ctor: "new", args: vec![("targets", "Vec<BuildTarget>")], fixed: None, run: |a| enc(&WorkspaceBuildTargetsResult::new(de::<Vec<BuildTarget>>(&a[0]))) },
        Ctor { name: "LogMessage", ctor: "new", args: vec![("type", "MessageType"), ("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: None, run: |a| enc(&LogMessage::new(de::<MessageType>(&a[0]), de::<String>(&a[1]), de::<Option<TaskId>>(&a[2]), de::<Option<String>>(&a[3]))) },
        Ctor { name: "LogMessage", ctor: "info", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Info"), run: |a| enc(&LogMessage::info(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "LogMessage", ctor: "warn", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Warning"), run: |a| enc(&LogMessage::warn(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "LogMessage", ctor: "error", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Error"), run: |a| enc(&LogMessage::error(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "LogMessage", ctor: "log", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Log"), run: |a| enc(&LogMessage::log::<String>(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "ShowMessage", ctor: "new", args: vec![("type", "MessageType"), ("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: None, run: |a| enc(&ShowMessage::new(de::<MessageType>(&a[0]), de::<String>(&a[1]), de::<Option<TaskId>>(&a[2]), de::<Option<String>>(&a[3]))) },
        Ctor { name: "ShowMessage", ctor: "info", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Info"), run: |a| enc(&ShowMessage::info(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "ShowMessage", ctor: "log", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Log"), run: |a| enc(&ShowMessage::log(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "ShowMessage", ctor: "warn", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Warning"), run: |a| enc(&ShowMessage::warn(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
        Ctor { name: "ShowMessage", ctor: "error", args: vec![("message", "String"), ("task", "Option<TaskId>"), ("originId", "Option<String>")], fixed: Some("Error"), run: |a| enc(&ShowMessage::error(de::<String>(&a[0]), de::<Option<TaskId>>(&a[1]), de::<Option<String>>(&a[2]))) },
    ]
}

pub fn accessors() -> Vec<Acc> {
    vec![
        Acc { name: "BuildTargetCapabilities", member: "canCompile", kind: "req", ty: "bool", get: Some(|t| view1::<BuildTargetCapabilities>(t, |x| enc(&x.can_compile()))), set: Some(|t, v| edit::<BuildTargetCapabilities>(t, |x| x.set_can_compile(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCapabilities", member: "canTest", kind: "req", ty: "bool", get: Some(|t| view1::<BuildTargetCapabilities>(t, |x| enc(&x.can_test()))), set: Some(|t, v| edit::<BuildTargetCapabilities>(t, |x| x.set_can_test(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCapabilities", member: "canRun", kind: "req", ty: "bool", get: Some(|t| view1::<BuildTargetCapabilities>(t, |x| enc(&x.can_run()))), set: Some(|t, v| edit::<BuildTargetCapabilities>(t, |x| x.set_can_run(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCapabilities", member: "canDebug", kind: "req", ty: "bool", get: Some(|t| view1::<BuildTargetCapabilities>(t, |x| enc(&x.can_debug()))), set: Some(|t, v| edit::<BuildTargetCapabilities>(t, |x| x.set_can_debug(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCleanCache", member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>", get: Some(|t| view1::<BuildTargetCleanCache>(t, |x| enc(&x.targets()))), set: Some(|t, v| edit::<BuildTargetCleanCache>(t, |x| x.set_targets(de(v)))), set_mut: Some(|t, v| edit::<BuildTargetCleanCache>(t, |x| { *x.targets_mut() = de(v); })) },
        Acc { name: "BuildTargetCleanCacheResult", member: "message", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetCleanCacheResult>(t, |x| enc(&x.message()))), set: Some(|t, v| edit::<BuildTargetCleanCacheResult>(t, |x| x.set_message(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCleanCacheResult", member: "cleaned", kind: "req", ty: "bool", get: Some(|t| view1::<BuildTargetCleanCacheResult>(t, |x| enc(&x.cleaned()))), set: Some(|t, v| edit::<BuildTargetCleanCacheResult>(t, |x| x.set_cleaned(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompile", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<BuildTargetCompile>(t, |x| enc(&x.target()))), set: Some(|t, v| edit::<BuildTargetCompile>(t, |x| x.set_target(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompile", member: "originId", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetCompile>(t, |x| enc(&x.origin_id()))), set: Some(|t, v| edit::<BuildTargetCompile>(t, |x| x.set_origin_id(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompile", member: "arguments", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetCompile>(t, |x| enc(&x.arguments()))), set: Some(|t, v| edit::<BuildTargetCompile>(t, |x| x.set_arguments(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompileResult", member: "originId", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetCompileResult>(t, |x| enc(&x.origin_id()))), set: Some(|t, v| edit::<BuildTargetCompileResult>(t, |x| x.set_origin_id(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompileResult", member: "statusCode", kind: "req", ty: "usize", get: Some(|t| view1::<BuildTargetCompileResult>(t, |x| enc(&x.status_code()))), set: Some(|t, v| edit::<BuildTargetCompileResult>(t, |x| x.set_status_code(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompileResult", member: "dataKind", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetCompileResult>(t, |x| enc(&x.data_kind()))), set: Some(|t, v| edit::<BuildTargetCompileResult>(t, |x| x.set_data_kind(de(v)))), set_mut: None },
        Acc { name: "BuildTargetCompileResult", member: "data", kind: "opt", ty: "Option<Value>", get: Some(|t| view1::<BuildTargetCompileResult>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<BuildTargetCompileResult>(t, |x| x.set_data(de(v)))), set_mut: None },
        Acc { name: "BuildTargetDependencyModules", member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>", get: Some(|t| view1::<BuildTargetDependencyModules>(t, |x| enc(&x.targets()))), set: Some(|t, v| edit::<BuildTargetDependencyModules>(t, |x| x.set_targets(de(v)))), set_mut: Some(|t, v| edit::<BuildTargetDependencyModules>(t, |x| { *x.targets_mut() = de(v); })) },
        Acc { name: "BuildTargetDependencyModulesResult", member: "items", kind: "req", ty: "Vec<DependencyModulesItem>", get: Some(|t| view1::<BuildTargetDependencyModulesResult>(t, |x| enc(&x.items()))), set: None, set_mut: Some(|t, v| edit::<BuildTargetDependencyModulesResult>(t, |x| { *x.items_mut() = de(v); })) },
        Acc { name: "BuildTargetDependencySources", member: "textDocument", kind: "req", ty: "TextDocumentIdentifier", get: Some(|t| view1::<BuildTargetDependencySources>(t, |x| enc(&x.text_document()))), set: Some(|t, v| edit::<BuildTargetDependencySources>(t, |x| x.set_text_document(de(v)))), set_mut: None },
        Acc { name: "BuildTargetIdentifier", member: "uri", kind: "req", ty: "Url", get: Some(|t| view1::<BuildTargetIdentifier>(t, |x| enc(&x.uri()))), set: Some(|t, v| edit::<BuildTargetIdentifier>(t, |x| x.set_uri(de(v)))), set_mut: None },
        Acc { name: "BuildTargetResources", member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>", get: Some(|t| view1::<BuildTargetResources>(t, |x| enc(&x.targets()))), set: Some(|t, v| edit::<BuildTargetResources>(t, |x| x.set_targets(de(v)))), set_mut: Some(|t, v| edit::<BuildTargetResources>(t, |x| { *x.targets_mut() = de(v); })) },
        Acc { name: "BuildTargetResourcesResult", member: "items", kind: "req", ty: "Vec<Resources>", get: Some(|t| view1::<BuildTargetResourcesResult>(t, |x| enc(&x.items()))), set: None, set_mut: Some(|t, v| edit::<BuildTargetResourcesResult>(t, |x| { *x.items_mut() = de(v); })) },
        Acc { name: "BuildTargetRun", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<BuildTargetRun>(t, |x| enc(&x.target()))), set: Some(|t, v| edit::<BuildTargetRun>(t, |x| x.set_target(de(v)))), set_mut: None },
        Acc { name: "BuildTargetRun", member: "originId", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetRun>(t, |x| enc(&x.origin_id()))), set: Some(|t, v| edit::<BuildTargetRun>(t, |x| x.set_origin_id(de(v)))), set_mut: None },
        Acc { name: "BuildTargetRun", member: "arguments", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetRun>(t, |x| enc(&x.arguments()))), set: Some(|t, v| edit::<BuildTargetRun>(t, |x| x.set_arguments(de(v)))), set_mut: None },
        Acc { name: "BuildTargetRun", member: "dataKind", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetRun>(t, |x| enc(&x.data_kind()))), set: Some(|t, v| edit::<BuildTargetRun>(t, |x| x.set_data_kind(de(v)))), set_mut: None },
        Acc { name: "BuildTargetRun", member: "data", kind: "opt", ty: "Option<Value>", get: Some(|t| view1::<BuildTargetRun>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<BuildTargetRun>(t, |x| x.set_data(de(v)))), set_mut: None },
        Acc { name: "BuildTargetRunResult", member: "originId", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetRunResult>(t, |x| enc(&x.origin_id()))), set: Some(|t, v| edit::<BuildTargetRunResult>(t, |x| x.set_origin_id(de(v)))), set_mut: None },
        Acc { name: "BuildTargetRunResult", member: "statusCode", kind: "req", ty: "usize", get: Some(|t| view1::<BuildTargetRunResult>(t, |x| enc(&x.status_code()))), set: Some(|t, v| edit::<BuildTargetRunResult>(t, |x| x.set_status_code(de(v)))), set_mut: None },
        Acc { name: "BuildTargetSources", member: "targets", kind: "req", ty: "Vec<BuildTargetIdentifier>", get: Some(|t| view1::<BuildTargetSources>(t, |x| enc(&x.targets()))), set: Some(|t, v| edit::<BuildTargetSources>(t, |x| x.set_targets(de(v)))), set_mut: None },
        Acc { name: "BuildTargetSourcesResult", member: "items", kind: "req", ty: "Vec<SourcesCollection>", get: Some(|t| view1::<BuildTargetSourcesResult>(t, |x| enc(&x.items()))), set: Some(|t, v| edit::<BuildTargetSourcesResult>(t, |x| x.set_items(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTest", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<BuildTargetTest>(t, |x| enc(&x.target()))), set: Some(|t, v| edit::<BuildTargetTest>(t, |x| x.set_target(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTest", member: "originId", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetTest>(t, |x| enc(&x.origin_id()))), set: Some(|t, v| edit::<BuildTargetTest>(t, |x| x.set_origin_id(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTest", member: "arguments", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetTest>(t, |x| enc(&x.arguments()))), set: Some(|t, v| edit::<BuildTargetTest>(t, |x| x.set_arguments(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTest", member: "dataKind", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetTest>(t, |x| enc(&x.data_kind()))), set: Some(|t, v| edit::<BuildTargetTest>(t, |x| x.set_data_kind(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTest", member: "data", kind: "opt", ty: "Option<Value>", get: Some(|t| view1::<BuildTargetTest>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<BuildTargetTest>(t, |x| x.set_data(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTestResult", member: "originId", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetTestResult>(t, |x| enc(&x.origin_id()))), set: Some(|t, v| edit::<BuildTargetTestResult>(t, |x| x.set_origin_id(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTestResult", member: "statusCode", kind: "req", ty: "usize", get: Some(|t| view1::<BuildTargetTestResult>(t, |x| enc(&x.status_code()))), set: Some(|t, v| edit::<BuildTargetTestResult>(t, |x| x.set_status_code(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTestResult", member: "dataKind", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<BuildTargetTestResult>(t, |x| enc(&x.data_kind()))), set: Some(|t, v| edit::<BuildTargetTestResult>(t, |x| x.set_data_kind(de(v)))), set_mut: None },
        Acc { name: "BuildTargetTestResult", member: "data", kind: "opt", ty: "Option<Value>", get: Some(|t| view1::<BuildTargetTestResult>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<BuildTargetTestResult>(t, |x| x.set_data(de(v)))), set_mut: None },
        Acc { name: "ClientCapabilities", member: "languageIds", kind: "req", ty: "Vec<String>", get: Some(|t| view1::<ClientCapabilities>(t, |x| enc(&x.language_ids()))), set: Some(|t, v| edit::<ClientCapabilities>(t, |x| x.set_language_ids(de(v)))), set_mut: Some(|t, v| edit::<ClientCapabilities>(t, |x| { *x.language_ids_mut() = de(v); })) },
        Acc { name: "DebugSessionStart", member: "targets", kind: "dflt", ty: "Vec<BuildTargetIdentifier>", get: Some(|t| view1::<DebugSessionStart>(t, |x| enc(&x.targets()))), set: Some(|t, v| edit::<DebugSessionStart>(t, |x| x.set_targets(de(v)))), set_mut: None },
        Acc { name: "DebugSessionStart", member: "dataKind", kind: "dflt", ty: "String", get: Some(|t| view1::<DebugSessionStart>(t, |x| enc(&x.data_kind()))), set: Some(|t, v| edit::<DebugSessionStart>(t, |x| x.set_data_kind(de(v)))), set_mut: None },
        Acc { name: "DebugSessionStart", member: "data", kind: "null", ty: "Value", get: Some(|t| view1::<DebugSessionStart>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<DebugSessionStart>(t, |x| x.set_data(de(v)))), set_mut: None },
        Acc { name: "DependencyModule", member: "name", kind: "req", ty: "String", get: Some(|t| view1::<DependencyModule>(t, |x| enc(&x.name()))), set: Some(|t, v| edit::<DependencyModule>(t, |x| x.set_name(de(v)))), set_mut: None },
        Acc { name: "DependencyModule", member: "version", kind: "req", ty: "String", get: Some(|t| view1::<DependencyModule>(t, |x| enc(&x.version()))), set: Some(|t, v| edit::<DependencyModule>(t, |x| x.set_version(de(v)))), set_mut: None },
        Acc { name: "DependencyModule", member: "dataKind", kind: "opt", ty: "Option<String>", get: Some(|t| view1::<DependencyModule>(t, |x| enc(&x.data_kind()))), set: Some(|t, v| edit::<DependencyModule>(t, |x| x.set_data_kind(de(v)))), set_mut: None },
        Acc { name: "DependencyModulesItem", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<DependencyModulesItem>(t, |x| enc(&x.target()))), set: None, set_mut: None },
        Acc { name: "DependencyModulesItem", member: "modules", kind: "req", ty: "Vec<DependencyModule>", get: Some(|t| view1::<DependencyModulesItem>(t, |x| enc(&x.modules()))), set: Some(|t, v| edit::<DependencyModulesItem>(t, |x| x.set_modules(de(v)))), set_mut: None },
        Acc { name: "DependencySourcesItem", member: "sources", kind: "req", ty: "Vec<String>", get: Some(|t| view1::<DependencySourcesItem>(t, |x| enc(&x.sources()))), set: Some(|t, v| edit::<DependencySourcesItem>(t, |x| x.set_sources(de(v)))), set_mut: None },
        Acc { name: "DependencySourcesItem", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<DependencySourcesItem>(t, |x| enc(&x.target()))), set: Some(|t, v| edit::<DependencySourcesItem>(t, |x| x.set_target(de(v)))), set_mut: None },
        Acc { name: "InitializeBuild", member: "data", kind: "opt", ty: "Option<Value>", get: Some(|t| view1::<InitializeBuild>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<InitializeBuild>(t, |x| x.set_data(de(v)))), set_mut: None },
        Acc { name: "InitializeBuild", member: "capabilities", kind: "dflt", ty: "ClientCapabilities", get: Some(|t| view1::<InitializeBuild>(t, |x| enc(&x.capabilities()))), set: Some(|t, v| edit::<InitializeBuild>(t, |x| x.set_capabilities(de(v)))), set_mut: None },
        Acc { name: "InitializeBuild", member: "rootUri", kind: "req", ty: "Url", get: Some(|t| view1::<InitializeBuild>(t, |x| enc(&x.root_uri()))), set: Some(|t, v| edit::<InitializeBuild>(t, |x| x.set_root_uri(de(v)))), set_mut: None },
        Acc { name: "InitializeBuild", member: "bspVersion", kind: "empty", ty: "String", get: Some(|t| view1::<InitializeBuild>(t, |x| enc(&x.bsp_version()))), set: Some(|t, v| edit::<InitializeBuild>(t, |x| x.set_bsp_version(de(v)))), set_mut: None },
        Acc { name: "InitializeBuild", member: "version", kind: "empty", ty: "String", get: Some(|t| view1::<InitializeBuild>(t, |x| enc(&x.version()))), set: Some(|t, v| edit::<InitializeBuild>(t, |x| x.set_version(de(v)))), set_mut: None },
        Acc { name: "InitializeBuild", member: "displayName", kind: "req", ty: "String", get: Some(|t| view1::<InitializeBuild>(t, |x| enc(&x.display_name()))), set: Some(|t, v| edit::<InitializeBuild>(t, |x| x.set_display_name(de(v)))), set_mut: None },
        Acc { name: "InitializeBuildResult", member: "bspVersion", kind: "req", ty: "String", get: Some(|t| view1::<InitializeBuildResult>(t, |x| enc(&x.bsp_version()))), set: Some(|t, v| edit::<InitializeBuildResult>(t, |x| x.set_bsp_version(de(v)))), set_mut: None },
        Acc { name: "InitializeBuildResult", member: "version", kind: "req", ty: "String", get: Some(|t| view1::<InitializeBuildResult>(t, |x| enc(&x.version()))), set: Some(|t, v| edit::<InitializeBuildResult>(t, |x| x.set_version(de(v)))), set_mut: None },
        Acc { name: "InitializeBuildResult", member: "displayName", kind: "req", ty: "String", get: Some(|t| view1::<InitializeBuildResult>(t, |x| enc(&x.display_name()))), set: Some(|t, v| edit::<InitializeBuildResult>(t, |x| x.set_display_name(de(v)))), set_mut: None },
        Acc { name: "InitializeBuildResult", member: "capabilities", kind: "req", ty: "ServerCapabilities", get: Some(|t| view1::<InitializeBuildResult>(t, |x| enc(&x.capabilities()))), set: Some(|t, v| edit::<InitializeBuildResult>(t, |x| x.set_capabilities(de(v)))), set_mut: None },
        Acc { name: "InitializeBuildResult", member: "data", kind: "opt", ty: "Option<Value>", get: Some(|t| view1::<InitializeBuildResult>(t, |x| enc(&x.data()))), set: Some(|t, v| edit::<InitializeBuildResult>(t, |x| x.set_data(de(v)))), set_mut: Some(|t, v| edit::<InitializeBuildResult>(t, |x| { *x.data_mut() = de(v); })) },
        Acc { name: "Resources", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<Resources>(t, |x| enc(&x.target()))), set: Some(|t, v| edit::<Resources>(t, |x| x.set_target(de(v)))), set_mut: None },
        Acc { name: "Resources", member: "resources", kind: "req", ty: "Vec<String>", get: Some(|t| view1::<Resources>(t, |x| enc(&x.resources()))), set: Some(|t, v| edit::<Resources>(t, |x| x.set_resources(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "compileProvider", kind: "opt", ty: "Option<CompileProvider>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.compile_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_compile_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "testProvider", kind: "opt", ty: "Option<TestProvider>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.test_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_test_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "runProvider", kind: "opt", ty: "Option<RunProvider>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.run_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_run_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "debugProvider", kind: "opt", ty: "Option<DebugProvider>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.debug_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_debug_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "inverseSourcesProvider", kind: "opt", ty: "Option<bool>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.inverse_sources_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_inverse_sources_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "dependencySourcesProvider", kind: "opt", ty: "Option<bool>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.dependency_sources_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_dependency_sources_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "dependencyModulesProvider", kind: "opt", ty: "Option<bool>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.dependency_modules_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_dependency_modules_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "resourcesProvider", kind: "opt", ty: "Option<bool>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.resources_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_resources_provider(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "canReload", kind: "opt", ty: "Option<bool>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.can_reload()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_can_reload(de(v)))), set_mut: None },
        Acc { name: "ServerCapabilities", member: "buildTargetChangedProvider", kind: "opt", ty: "Option<bool>", get: Some(|t| view1::<ServerCapabilities>(t, |x| enc(&x.build_target_changed_provider()))), set: Some(|t, v| edit::<ServerCapabilities>(t, |x| x.set_build_target_changed_provider(de(v)))), set_mut: None },
        Acc { name: "Sources", member: "kind", kind: "req", ty: "SourceKind", get: Some(|t| view1::<Sources>(t, |x| enc(&x.kind()))), set: Some(|t, v| edit::<Sources>(t, |x| x.set_kind(de(v)))), set_mut: None },
        Acc { name: "Sources", member: "uri", kind: "req", ty: "Url", get: Some(|t| view1::<Sources>(t, |x| enc(&x.uri()))), set: Some(|t, v| edit::<Sources>(t, |x| x.set_uri(de(v)))), set_mut: None },
        Acc { name: "Sources", member: "generated", kind: "req", ty: "bool", get: Some(|t| view1::<Sources>(t, |x| enc(&x.generated()))), set: Some(|t, v| edit::<Sources>(t, |x| x.set_generated(de(v)))), set_mut: None },
        Acc { name: "SourcesCollection", member: "target", kind: "req", ty: "BuildTargetIdentifier", get: Some(|t| view1::<SourcesCollection>(t, |x| enc(&x.target()))), set: Some(|t, v| edit::<SourcesCollection>(t, |x| x.set_target(de(v)))), set_mut: None },
        Acc { name: "SourcesCollection", member: "sources", kind: "req", ty: "Vec<Sources>", get: Some(|t| view1::<SourcesCollection>(t, |x| enc(&x.sources()))), set: Some(|t, v| edit::<SourcesCollection>(t, |x| x.set_sources(de(v)))), set_mut: None },
        Acc { name: "TextDocumentInverseSources", member: "textDocument", kind: "req", ty: "TextDocumentIdentifier", get: Some(|t| view1::<TextDocumentInverseSources>(t, |x| enc(&x.text_document()))), set: Some(|t, v| edit::<TextDocumentInverseSources>(t, |x| x.set_text_document(de(v)))), set_mut: None },
    ]
}

pub fn clones() -> Vec<(&'static str, fn(&str) -> Result<(Value, Value), String>)> {
    vec![
        ("BuildTargetCleanCache", cloned::<BuildTargetCleanCache>),
        ("BuildTargetCompile", cloned::<BuildTargetCompile>),
        ("BuildTargetDependencyModules", cloned::<BuildTargetDependencyModules>),
        ("BuildTargetDependencySources", cloned::<BuildTargetDependencySources>),
        ("BuildTargetDidChange", cloned::<BuildTargetDidChange>),
        ("BuildTargetEvent", cloned::<BuildTargetEvent>),
        ("BuildTargetIdentifier", cloned::<BuildTargetIdentifier>),
        ("BuildTargetResources", cloned::<BuildTargetResources>),
        ("BuildTargetRun", cloned::<BuildTargetRun>),
        ("BuildTargetSources", cloned::<BuildTargetSources>),
        ("BuildTargetTest", cloned::<BuildTargetTest>),
        ("ClientCapabilities", cloned::<ClientCapabilities>),
        ("DebugSessionStart", cloned::<DebugSessionStart>),
        ("InitializeBuild", cloned::<InitializeBuild>),
        ("LogMessage", cloned::<LogMessage>),
        ("PublishDiagnostics", cloned::<PublishDiagnostics>),
        ("ShowMessage", cloned::<ShowMessage>),
        ("TaskFinish", cloned::<TaskFinish>),
        ("TaskId", cloned::<TaskId>),
        ("TaskProgress", cloned::<TaskProgress>),
        ("TaskStart", cloned::<TaskStart>),
        ("TextDocumentInverseSources", cloned::<TextDocumentInverseSources>),
    ]
}

pub fn defaults() -> Vec<(&'static str, fn() -> Value)> {
    vec![
        ("BuildTargetCapabilities", || enc(&BuildTargetCapabilities::default())),
        ("BuildTargetDependencyModulesResult", || enc(&BuildTargetDependencyModulesResult::default())),
        ("BuildTargetDependencySourcesResult", || enc(&BuildTargetDependencySourcesResult::default())),
        ("BuildTargetDidChange", || enc(&BuildTargetDidChange::default())),
        ("BuildTargetInverseSourcesResult", || enc(&BuildTargetInverseSourcesResult::default())),
        ("BuildTargetResourcesResult", || enc(&BuildTargetResourcesResult::default())),
        ("BuildTargetSources", || enc(&BuildTargetSources::default())),
        ("BuildTargetSourcesResult", || enc(&BuildTargetSourcesResult::default())),
        ("ClientCapabilities", || enc(&ClientCapabilities::default())),
        ("CompileProvider", || enc(&CompileProvider::default())),
        ("DebugProvider", || enc(&DebugProvider::default())),
        ("DebugSessionStart", || enc(&DebugSessionStart::default())),
        ("DependencyModule", || enc(&DependencyModule::default())),
        ("InitializeBuildResult", || enc(&InitializeBuildResult::default())),
        ("LogMessage", || enc(&LogMessage::default())),
        ("RunProvider", || enc(&RunProvider::default())),
        ("ServerCapabilities", || enc(&ServerCapabilities::default())),
        ("ShowMessage", || enc(&ShowMessage::default())),
        ("TaskFinish", || enc(&TaskFinish::default())),
        ("TaskId", || enc(&TaskId::default())),
        ("TaskProgress", || enc(&TaskProgress::default())),
        ("TaskStart", || enc(&TaskStart::default())),
        ("TestProvider", || enc(&TestProvider::default())),
        ("WorkspaceBuildTargetsResult", || enc(&WorkspaceBuildTargetsResult::default())),
    ]
}
