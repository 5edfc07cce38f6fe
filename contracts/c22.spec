// C22: lookup of flows, models and task types.
import resource "core/app/resource"

// fetches from the flow provider, and the latest result
ghost loose C22 #fetched int
ghost loose C22 #fetchRep any
ghost loose C22 #fetchErr any
ghost loose C22 #fetchURI string
iface (definition.Provider).GetFlow(p, uri) -> (rep, err) {
  sets [C22] #fetched := #fetched + 1
  sets [C22] #fetchRep := box(rep)
  sets [C22] #fetchErr := err
  sets [C22] #fetchURI := uri
}
define cached(fm, u) = fm.remoteFlows != nil && u in fm.remoteFlows
func (*support.FlowManager).GetFlow(fm, uri) -> (flow, err) {
  ensures [C22] "a flow obtained once is returned without fetching it again" old(cached(fm, uri)) ==> err == nil && flow == old(fm.remoteFlows[uri]) && #fetched == old(#fetched)
  ensures [C22] "a flow not known is fetched once" !old(cached(fm, uri)) ==> #fetched == old(#fetched) + 1 && #fetchURI == uri
  ensures [C22] "a failure is reported" !old(cached(fm, uri)) && #fetchErr != nil ==> err == #fetchErr
  ensures [C22] "and not remembered" err != nil ==> flow == nil && cached(fm, uri) == old(cached(fm, uri))
  ensures [C22] "the flow obtained is remembered" err == nil ==> cached(fm, uri) && fm.remoteFlows[uri] == flow
  ensures [C22] "the other flows are kept" forall u string {u in fm.remoteFlows} {fm.remoteFlows[u]} :: u != uri ==> cached(fm, u) == old(cached(fm, u)) && (cached(fm, u) ==> fm.remoteFlows[u] == old(fm.remoteFlows[u]))
  ensures [C22] "and is the one described by what was fetched" !old(cached(fm, uri)) && err == nil ==> box(flow) == #builtDef && #builtRep == #fetchRep && #builtErr == nil
  ensures [C22] "a description that cannot be built is reported" !old(cached(fm, uri)) && #fetchErr == nil ==> (err == nil) == (#builtErr == nil) && #built == old(#built) + 1
  ensures err != nil ==> flow == nil
  modifies fm.remoteFlows, fm.remoteFlows[*], @PARSE
}
modset FETCH = all support.FlowManager.remoteFlows, all map[string]*definition.Definition, @PARSE
extern (*resource.Manager).GetResource(m, uri) -> (r) { pure }
extern (*resource.Resource).Object(r) -> (o) { pure }
define isRes(u) = strings.HasPrefix(u, "res://")
define resObj(u) = support.resManager.GetResource(u).Object()
define hasRes(u) = support.resManager.GetResource(u) != nil && resObj(u) is *definition.Definition
func support.GetDefinition(uri) -> (def, ir, err) {
  ensures [C22] "the flow kept as a resource" isRes(uri) ==> err == nil && ir == hasRes(uri) && (if ir then def == (resObj(uri) as *definition.Definition) else def == nil) && #fetched == old(#fetched)
  ensures [C22] "or the remote one" !isRes(uri) ==> !ir && (err == nil ==> cached(support.flowManager, uri) && support.flowManager.remoteFlows[uri] == def) && (err != nil ==> def == nil)
  ensures [C22] "fetched once" !isRes(uri) && old(cached(support.flowManager, uri)) ==> err == nil && def == old(support.flowManager.remoteFlows[uri]) && #fetched == old(#fetched)
  modifies @FETCH
}
// the definition built last
ghost loose C22 #built int
ghost loose C22 #builtRep any
ghost loose C22 #builtDef any
ghost loose C22 #builtErr any
func support.materializeFlow(rep) -> (def, err) {
  ensures [C22] "the flow described" #built == old(#built) + 1 && #builtRep == box(rep) && (err == nil) == (#builtErr == nil) && (err == nil ==> box(def) == #builtDef) && (err != nil ==> def == nil)
  modifies @PARSE, #built, #builtRep, #builtDef, #builtErr
  quiet
}

// models
iface (util.ModelValidator).IsValidTaskType(v, t) -> (b) { pure }
define registered(id) = model.models != nil && id in model.models
func model.Register(fm) {
  assumes "the tables are there" model.models != nil && util.modelValidators != nil
  ensures [C22] "neither no model nor a second one of its name is registered" fm != nil && !old(fm.name in model.models)
  ensures [C22] "the model is the one of its name" model.models[fm.name] == fm && fm.name in model.models
  ensures [C22] "its task types are known under that name" util.modelValidators[fm.name] == fm && fm.name in util.modelValidators
  ensures [C22] "the other models are kept" forall k string {k in model.models} {model.models[k]} :: k != fm.name ==> (k in model.models) == old(k in model.models) && model.models[k] == old(model.models[k])
  ensures [C22] "and their task types" forall k string {k in util.modelValidators} {util.modelValidators[k]} :: k != fm.name ==> (k in util.modelValidators) == old(k in util.modelValidators) && util.modelValidators[k] == old(util.modelValidators[k])
  may_panic
  panics [C22] "a refused model changes nothing" (fm == nil || old(fm.name in model.models)) && (forall k string {k in model.models} {model.models[k]} :: (k in model.models) == old(k in model.models) && model.models[k] == old(model.models[k]))
  modifies model.models[*], util.modelValidators[*]
  quiet
}
func model.RegisterDefault(fm) {
  assumes "the tables are there" model.models != nil && util.modelValidators != nil
  ensures [C22] "a model is given" fm != nil
  ensures [C22] "it is the default" model.defaultModel == fm && util.modelValidators[""] == fm && "" in util.modelValidators
  ensures [C22] "a model registered before under its name stays" fm.name in model.models && model.models[fm.name] == (if old(fm.name in model.models) then old(model.models[fm.name]) else fm)
  ensures [C22] "otherwise its task types are known under its name" !old(fm.name in model.models) ==> util.modelValidators[fm.name] == fm && fm.name in util.modelValidators
  ensures [C22] "the other models are kept" forall k string {k in model.models} {model.models[k]} :: k != fm.name ==> (k in model.models) == old(k in model.models) && model.models[k] == old(model.models[k])
  ensures [C22] "and their task types" forall k string {k in util.modelValidators} {util.modelValidators[k]} :: k != fm.name && k != "" ==> (k in util.modelValidators) == old(k in util.modelValidators) && util.modelValidators[k] == old(util.modelValidators[k])
  may_panic
  panics [C22] "a refused model changes nothing" fm == nil && model.defaultModel == old(model.defaultModel) && (forall k string {k in model.models} {model.models[k]} :: (k in model.models) == old(k in model.models) && model.models[k] == old(model.models[k]))
  modifies model.models[*], util.modelValidators[*], all model.defaultModel
  quiet
}
func model.Get(id) -> (fm, err) {
  ensures [C22] "the registered model, or an error" (err == nil) == registered(id) && (err == nil ==> fm == model.models[id]) && (err != nil ==> fm == nil)
  modifies nothing
}
func model.Default() -> (fm) {
  ensures [C22] "the default model" fm == model.defaultModel
  modifies nothing
}
func util.IsValidTaskType(m, t) -> (b) {
  ensures [C22] "as the model says, and not without a model" b == (util.modelValidators != nil && m in util.modelValidators && util.modelValidators[m].IsValidTaskType(t))
  modifies nothing
}
func util.GetModelValidator(m) -> (v) {
  ensures [C22] "the validator of that name" util.modelValidators != nil && m in util.modelValidators ==> v == util.modelValidators[m]
  modifies nothing
}
define hasType(fm, id) = fm.taskBehaviors != nil && id in fm.taskBehaviors
func (*model.FlowModel).RegisterTaskBehavior(fm, id, b) {
  assumes fm.taskBehaviors != nil
  ensures [C22] "the behaviour is that of its type" hasType(fm, id) && fm.taskBehaviors[id] == b
  ensures [C22] "other types are kept" forall k string {k in fm.taskBehaviors} {fm.taskBehaviors[k]} :: k != id ==> hasType(fm, k) == old(hasType(fm, k)) && fm.taskBehaviors[k] == old(fm.taskBehaviors[k])
  modifies fm.taskBehaviors[*]
  quiet
}
func (*model.FlowModel).RegisterDefaultTaskBehavior(fm, id, b) {
  assumes fm.taskBehaviors != nil
  ensures [C22] "the behaviour is the default and that of its type" fm.defaultTaskBehavior == b && hasType(fm, id) && fm.taskBehaviors[id] == b
  ensures [C22] "other types are kept" forall k string {k in fm.taskBehaviors} {fm.taskBehaviors[k]} :: k != id ==> hasType(fm, k) == old(hasType(fm, k)) && fm.taskBehaviors[k] == old(fm.taskBehaviors[k])
  modifies fm.taskBehaviors[*], fm.defaultTaskBehavior
  quiet
}
func (*model.FlowModel).IsValidTaskType(fm, t) -> (b) {
  ensures [C22] "exactly the registered types, and none if there is a default" b == (if t == "" && fm.defaultTaskBehavior != nil then true else hasType(fm, t))
  modifies nothing
}
func (*model.FlowModel).GetTaskBehavior(fm, id) -> (b) {
  ensures [C22] "the behaviour of that type, or the default one" b == (if id == "" then fm.defaultTaskBehavior else if hasType(fm, id) then fm.taskBehaviors[id] else nil)
  modifies nothing
}
func (*model.FlowModel).GetFlowBehavior(fm) -> (b) {
  ensures [C22] "the behaviour registered" b == fm.flowBehavior
  modifies nothing
}
func (*model.FlowModel).RegisterFlowBehavior(fm, b) {
  ensures [C22] "the behaviour is that of the model" fm.flowBehavior == b
  modifies fm.flowBehavior
  quiet
}
func (*model.FlowModel).GetDefaultTaskBehavior(fm) -> (b) {
  ensures [C22] "the default behaviour" b == fm.defaultTaskBehavior
  modifies nothing
}
func model.New(name) -> (fm) {
  ensures [C22] "an empty model of that name" fm != nil && fresh(fm) && fm.name == name && fm.taskBehaviors != nil && fresh(fm.taskBehaviors) && fm.defaultTaskBehavior == nil && fm.flowBehavior == nil && forall k string {k in fm.taskBehaviors} :: !(k in fm.taskBehaviors)
  modifies nothing
}
define isBehaviour(fm, t) = (t == "basic" || t == "iterator" || t == "doWhile")
func simple.New() -> (fm) {
  ensures [C22] "the task types of the simple model" fm != nil && fm.name == "flogo-simple" && forall k string {k in fm.taskBehaviors} :: hasType(fm, k) == isBehaviour(fm, k)
  ensures [C22] "with their behaviours" fm.taskBehaviors["basic"] is *simple.TaskBehavior && fm.taskBehaviors["iterator"] is *simple.IteratorTaskBehavior && fm.taskBehaviors["doWhile"] is *simple.DoWhileTaskBehavior && fm.defaultTaskBehavior == fm.taskBehaviors["basic"] && fm.flowBehavior is *simple.FlowBehavior
  modifies nothing
}
