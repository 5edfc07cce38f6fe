// C09: iterator tasks.

closed simple.Iterator = *simple.ArrayIterator, *simple.IntIterator, *simple.ObjectIterator, *simple.ReflectIterator

import reflect "reflect"
extern (reflect.Value).Len(v) -> (n) { pure }
extern (reflect.Value).Index(v, i) -> (e) { pure }
extern (reflect.Value).Interface(v) -> (x) { pure }
extern (reflect.Value).Kind(v) -> (k) { pure }
extern reflect.ValueOf(x) -> (v) { pure }

define itCur(it) = if it is *simple.ArrayIterator then (it as *simple.ArrayIterator).current else if it is *simple.IntIterator then (it as *simple.IntIterator).current else if it is *simple.ObjectIterator then (it as *simple.ObjectIterator).current else (it as *simple.ReflectIterator).current
define itLen(it) = if it is *simple.ArrayIterator then len((it as *simple.ArrayIterator).data) else if it is *simple.IntIterator then (it as *simple.IntIterator).count else if it is *simple.ObjectIterator then len((it as *simple.ObjectIterator).data) else (it as *simple.ReflectIterator).val.Len()
define elKey(it, i) = if it is *simple.ObjectIterator then box((it as *simple.ObjectIterator).keyMap[i]) else box(i)
define elVal(it, i) = if it is *simple.ArrayIterator then (it as *simple.ArrayIterator).data[i] else if it is *simple.IntIterator then box(i) else if it is *simple.ObjectIterator then (it as *simple.ObjectIterator).data[(it as *simple.ObjectIterator).keyMap[i]] else (it as *simple.ReflectIterator).val.Index(i).Interface()

// the keys of an object, each at exactly one position
define enumerates(km, m) = (forall i int {km[i]} :: 0 <= i && i < len(m) ==> i in km && km[i] in m) && (forall i int, j int {km[i], km[j]} :: 0 <= i && i < j && j < len(m) ==> km[i] != km[j])

func simple.NewObjectIterator(data) -> (it) {
  ensures [C09] "the keys of the object, each once" it != nil && fresh(it) && it.data == data && it.current == 0 - 1 && enumerates(it.keyMap, data)
  modifies nothing
  loopinv <i int, km map[int]string> forall a int {km[a]} :: 0 <= a && a < i ==> a in km && km[a] in data
  loopinv <i int, km map[int]string> forall a int {km[a]} :: 0 <= a && a < i ==> km[a] in $vis
  loopinv <i int, km map[int]string> forall a int, b int {km[a], km[b]} :: 0 <= a && a < b && b < i ==> km[a] != km[b]
  loopinv <i int> i == $i
}

define hasIt(ti) = wdHas(ti, "_iterator")
define itOf(ti) = wd(ti, "_iterator") as simple.Iterator
define itAlloc(it) = if it is *simple.ArrayIterator then allocated(it as *simple.ArrayIterator) else if it is *simple.IntIterator then allocated(it as *simple.IntIterator) else if it is *simple.ObjectIterator then allocated(it as *simple.ObjectIterator) else allocated(it as *simple.ReflectIterator)
define itOK(ti) = wdHas(ti, "iteration") && wd(ti, "iteration") is map[string]any && itMap(ti) != nil && wd(ti, "_iterator") is simple.Iterator && itAlloc(itOf(ti)) && itMap(ti) != ti.workingData.workingData && (wd(ti, "_iterator") is *simple.ObjectIterator ==> (wd(ti, "_iterator") as *simple.ObjectIterator).data != itMap(ti))

// what is iterated on: the configured value or the value of the configured expression
define iterCfg(ti) = ti.task.loopCfg.iterateOn
define iterOn(ti) = if iterCfg(ti) is expression.Expr then #xval[iterCfg(ti) as expression.Expr] else iterCfg(ti)
define countOf(v) = if v is string then coerce.ToInt(v).n else if v is int64 then (v as int64) else if v is int then (v as int) else if v is map[string]any then len(v as map[string]any) else if v is []any then len(v as []any) else reflect.ValueOf(v).Len()

define isSeq(v) = reflect.ValueOf(v).Kind() == reflect.Array || reflect.ValueOf(v).Kind() == reflect.Slice
define basicIter(v) = v is int64 || v is float64 || v is int || v is map[string]any || v is []any
define countable(v) = v != nil && (if v is string then coerce.ToInt(v).err == nil else basicIter(v) || isSeq(v))
define madeFrom(it, v) = if v is string then it is *simple.IntIterator && itLen(it) == coerce.ToInt(v).n else if v is int64 || v is float64 || v is int then it is *simple.IntIterator && (v is int64 ==> itLen(it) == (v as int64)) && (v is int ==> itLen(it) == (v as int)) else if v is map[string]any then it is *simple.ObjectIterator && (it as *simple.ObjectIterator).data == (v as map[string]any) else if v is []any then it is *simple.ArrayIterator && (it as *simple.ArrayIterator).data == (v as []any) else it is *simple.ReflectIterator && (it as *simple.ReflectIterator).val == reflect.ValueOf(v)
define elKeyAt(it) = if it is *simple.ObjectIterator then box((it as *simple.ObjectIterator).keyMap[0]) else box(0)

modset ITER = @RETRY, all map[string]any, all simple.ArrayIterator.current, all simple.IntIterator.current, all simple.ObjectIterator.current, all simple.ReflectIterator.current

// the evaluations since the beginning all saw element i of iterator it
define sawElement(it, i) = forall k int {#evkey[k]} {#evval[k]} {#evidx[k]} :: old(#evn) < k && k <= #evn ==> #evkey[k] == elKey(it, i) && #evval[k] == elVal(it, i) && #evidx[k] == box(i)

// the number of elements before any evaluation (an activity may change an object it was given)
define itLen0(it) = if it is *simple.ObjectIterator then (let d := (it as *simple.ObjectIterator).data :: old(len(d))) else itLen(it)
define canStart(ti) = !hasIt(ti) && ti.status != 50 && ti.task.loopCfg != nil
// (the table of the working data itself is nothing an expression can yield)
define iterVal(ti) = !(iterCfg(ti) is expression.Expr && #xerr[iterCfg(ti) as expression.Expr] != nil) && countable(iterOn(ti)) && !(iterOn(ti) is map[string]any && (iterOn(ti) as map[string]any) == ti.workingData.workingData)

func (*simple.IteratorTaskBehavior).Eval(tb, ctx) -> (res, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst)
  requires "a started iteration is well formed" hasIt(ctx as *instance.TaskInst) ==> itOK(ctx as *instance.TaskInst)
  ensures [C09,C03] "a skipped task is not evaluated" old((ctx as *instance.TaskInst).status) == 50 ==> res == model.EvalDone && err == nil && #evn == old(#evn)
  ensures [C09] "the iteration stays" let ti := ctx as *instance.TaskInst :: old(hasIt(ti)) ==> hasIt(ti) && wd(ti, "_iterator") == old(wd(ti, "_iterator"))
  ensures [C09] "no element left: finished, not evaluated" let ti := ctx as *instance.TaskInst :: old(hasIt(ti) && ti.status != 50 && itCur(itOf(ti)) + 1 >= itLen(itOf(ti))) ==> res == model.EvalDone && err == nil && #evn == old(#evn)
  ensures [C09] "the next element is evaluated" let ti := ctx as *instance.TaskInst :: old(hasIt(ti) && ti.status != 50 && itCur(itOf(ti)) + 1 < itLen(itOf(ti))) ==> #evn > old(#evn) && itCur(itOf(ti)) == old(itCur(itOf(ti))) + 1
  ensures [C09] "with its key, value and index" let ti := ctx as *instance.TaskInst :: old(hasIt(ti)) ==> (forall k int {#evkey[k]} {#evval[k]} {#evidx[k]} :: old(#evn) < k && k <= #evn ==> #evkey[k] == old(elKey(itOf(ti), itCur(itOf(ti)) + 1)) && #evval[k] == old(elVal(itOf(ti), itCur(itOf(ti)) + 1)) && #evidx[k] == old(box(itCur(itOf(ti)) + 1)))
  assumes "the iterate expression is not shared with the retry configuration" let ti := ctx as *instance.TaskInst :: ti.task.loopCfg != nil && iterCfg(ti) is expression.Expr ==> !ownExpr(ti.task.retryOnErrConfig, iterCfg(ti) as expression.Expr)
  ensures [C09] "nothing to iterate on: finished, not evaluated" let ti := ctx as *instance.TaskInst :: !old(hasIt(ti)) && ti.task.loopCfg == nil ==> res == model.EvalDone && err == nil && #evn == old(#evn)
  ensures [C09] "a failing iterate expression fails the task" let ti := ctx as *instance.TaskInst :: !old(hasIt(ti)) && old(ti.status) != 50 && ti.task.loopCfg != nil && iterCfg(ti) is expression.Expr && #xerr[iterCfg(ti) as expression.Expr] != nil ==> res == model.EvalFail && err != nil && #evn == old(#evn)
  ensures [C09] "a valid value starts the iteration" let ti := ctx as *instance.TaskInst :: old(canStart(ti)) && iterVal(ti) ==> hasIt(ti)
  ensures [C09] "over exactly that value" let ti := ctx as *instance.TaskInst :: old(canStart(ti)) && iterVal(ti) ==> madeFrom(itOf(ti), iterOn(ti))
  ensures [C09] "the first element is evaluated" let ti := ctx as *instance.TaskInst :: old(canStart(ti)) && iterVal(ti) && itLen0(itOf(ti)) > 0 ==> #evn > old(#evn) && itCur(itOf(ti)) == 0
  ensures [C09] "no elements: finished, not evaluated" let ti := ctx as *instance.TaskInst :: old(canStart(ti)) && iterVal(ti) && itLen0(itOf(ti)) <= 0 ==> #evn == old(#evn) && res == model.EvalDone && err == nil
  ensures [C09] "the first evaluations see the first element" let ti := ctx as *instance.TaskInst :: !old(hasIt(ti)) && hasIt(ti) ==> (forall k int {#evkey[k]} {#evval[k]} {#evidx[k]} :: old(#evn) < k && k <= #evn ==> #evkey[k] == elKeyAt(itOf(ti)) && #evidx[k] == box(0))
  ensures [C09] "anything else is rejected" let ti := ctx as *instance.TaskInst :: !old(hasIt(ti)) && old(ti.status) != 50 && ti.task.loopCfg != nil && !(iterCfg(ti) is expression.Expr && #xerr[iterCfg(ti) as expression.Expr] != nil) && iterOn(ti) != nil && !countable(iterOn(ti)) ==> res == model.EvalFail && err != nil && #evn == old(#evn)
  ensures [C09] "a started iteration stays well formed" hasIt(ctx as *instance.TaskInst) ==> itOK(ctx as *instance.TaskInst)
  ensures [C09] "the verdict follows the evaluation" #evn > old(#evn) ==> (#everr[#evn] == nil ==> err == nil && res == (if #evdone[#evn] then model.EvalRepeat else model.EvalWait)) && (#everr[#evn] != nil ==> err != nil && res == model.EvalFail)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  sets #bev := #bev + 1
  sets #bti := ctx as *instance.TaskInst
  sets #bres := res
  sets #berr := err
  modifies @ITER, (ctx as *instance.TaskInst).status
  may_panic
}

func (*simple.IteratorTaskBehavior).PostEval(tb, ctx) -> (res, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst)
  requires "the iteration was started and is well formed" hasIt(ctx as *instance.TaskInst) && itOK(ctx as *instance.TaskInst)
  ensures [C09,C04] "the waiting activity is resumed once" #pn == old(#pn) + 1
  ensures [C09] "an error stops the iteration" #perr[#pn] != nil ==> res == model.EvalFail && err == #perr[#pn]
  ensures [C09] "the iteration goes on while elements are left" let ti := ctx as *instance.TaskInst :: #perr[#pn] == nil && itCur(itOf(ti)) + 1 < itLen(itOf(ti)) ==> res == model.EvalRepeat && err == nil && ti.status == model.TaskStatusReady
  ensures [C09] "otherwise it ends, at the latest with the next evaluation" let ti := ctx as *instance.TaskInst :: #perr[#pn] == nil && itCur(itOf(ti)) + 1 >= itLen(itOf(ti)) ==> err == nil && (res == model.EvalDone || res == model.EvalRepeat && ti.status == model.TaskStatusReady)
  ensures [C09] "no element is consumed and nothing is evaluated" let ti := ctx as *instance.TaskInst :: wd(ti, "_iterator") == old(wd(ti, "_iterator")) && itCur(itOf(ti)) == old(itCur(itOf(ti))) && #evn == old(#evn)
  ensures [C09] "a started iteration stays well formed" hasIt(ctx as *instance.TaskInst) && itOK(ctx as *instance.TaskInst)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  sets #bpost := #bpost + 1
  sets #bti := ctx as *instance.TaskInst
  sets #bres := res
  sets #berr := err
  modifies @EVALACT, #pn, #perr, (ctx as *instance.TaskInst).status
  may_panic
}
