From ce9a2a2a54b4b49a374f42337439304bfc0d75ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 01/43] fix: report a panic while evaluating a link expression
 as an error

---
 instance/taskinst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..93fe1e5 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -271,7 +271,7 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
+			if err == nil {
 				err = fmt.Errorf("%v", r)
 			}
 		}
-- 
2.43.0


From 71f380dd702b2690ba9b5943f0527826a452d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 02/43] fix: do not schedule a task again when it is entered
 over a second link

---
 instance/ind_instance.go | 4 ++--
 instance/taskinst.go     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..64174e7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -729,8 +729,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
-		if inst.concurrentExec && taskInst.scheduled {
-			//task is already scheduled by other goroutine. Lets skip this task
+		if taskInst.scheduled {
+			//task is already scheduled, by another link or by other goroutine. Lets skip this task
 			continue
 		}
 		taskInst.id = taskInst.taskID
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 93fe1e5..fd004ae 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -76,7 +76,7 @@ type TaskInst struct {
 
 	//needed for serialization
 	taskID string
-	// When concurrent executaion mode is enabled, this flag ensures task is not scheduled more than once
+	// This flag ensures task is not scheduled more than once
 	scheduled bool
 	// When concurrent execution mode is enabled, this flag determines whether task should execute on a separate goroutine or not
 	asyncExec bool
-- 
2.43.0


From 2d48075980d1f17d32c83389973320051a408224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 03/43] fix: do not enter a task again that was skipped over
 another link

---
 instance/ind_instance.go |  4 ++++
 instance/instance.go     | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 64174e7..d9d7c26 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -727,6 +727,10 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 
 	for _, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
+		if activeInst.isReleased(taskEntry.Task) {
+			//task was already skipped and released while entering a previous entry
+			continue
+		}
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
 		if taskInst.scheduled {
diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..9c01ed2 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -136,6 +136,23 @@ func (inst *Instance) releaseTask(task *definition.Task) {
 	}
 }
 
+// isReleased indicates that the task was reached over at least one link, but has been released since
+func (inst *Instance) isReleased(task *definition.Task) bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	links := task.FromLinks()
+
+	for _, link := range links {
+		if _, ok := inst.linkInsts[link.ID()]; ok {
+			return false
+		}
+	}
+
+	return len(links) > 0
+}
+
 /////////////////////////////////////////
 // Instance - activity.Host Implementation
 
-- 
2.43.0


From c92114d3656e049a53214eafae2ea7d47f8124ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 04/43] fix: the error handler of a subflow discards the tasks
 of that subflow, not of the main flow

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index d9d7c26..e49b6fc 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -681,7 +681,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
-- 
2.43.0


From 014cf8356942a07a6d932328e356e0ac4bbd92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 05/43] fix: do not execute tasks of a subflow that already
 completed or failed

---
 instance/ind_instance.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index e49b6fc..9349801 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -421,6 +421,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	if taskInst.flowInst.Status() >= model.FlowStatusCompleted {
+		//flow is already over, so there is nothing left to do for its tasks
+		return
+	}
+
 	var err error
 	var evalResult model.EvalResult
 
-- 
2.43.0


From d6163f73d7e2e82d021e916f8e5fafd7c3733ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 06/43] fix: complete a flow only once when several of its end
 tasks are skipped

---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9349801..849c416 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -511,7 +511,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		flowDone = flowBehavior.TaskDone(containerInst)
 	}
 
-	if flowDone || containerInst.forceCompletion {
+	if (flowDone || containerInst.forceCompletion) && containerInst.Status() < model.FlowStatusCompleted {
 		//flow completed or return was called explicitly, so lets complete the flow
 		flowBehavior := inst.flowModel.GetFlowBehavior()
 		flowBehavior.Done(containerInst)
@@ -562,7 +562,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			containerInst.master.GetChanges().FlowDone(inst)
 		}
 
-	} else {
+	} else if !flowDone && !containerInst.forceCompletion {
 
 		if !propagateSkip {
 			// not done, so enter tasks specified by the Done behavior call
-- 
2.43.0


From 11ab8dd4b2b95c332a8ae599f48daecef42a4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 07/43] fix: report an error raised while handling an error as
 the result of the flow

---
 instance/ind_instance.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 849c416..2e293fc 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -412,12 +412,8 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			// todo: useful for debugging
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if !taskInst.flowInst.isHandlingError {
-
-				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
-			}
-			// else what should we do?
+			taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -656,6 +652,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 				}
 			} else {
 				taskInst.appendErrorData(err)
+				inst.returnError = err
 			}
 
 		} else {
@@ -670,18 +667,13 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 // HandleGlobalError handles instance errors
 func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err error) {
 
-	if containerInst.isHandlingError {
-		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
-		return
-	}
-
+	alreadyHandlingError := containerInst.isHandlingError
 	containerInst.isHandlingError = true
 
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 
 	//not currently handling error, so check if it has an error handler
-	if containerInst.flowDef.GetErrorHandler() != nil {
+	if !alreadyHandlingError && containerInst.flowDef.GetErrorHandler() != nil {
 
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
-- 
2.43.0


From 270ac823e842193b21987a263102f0a5f22c21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 08/43] fix: do not hold the scheduling lock while finalising a
 skipped task

---
 instance/ind_instance.go | 60 ++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2e293fc..d5142f3 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -716,34 +716,15 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
-	if inst.actSchedLock != nil {
-		// Lock is set only when concurrent executaion is enabled
-		inst.actSchedLock.Lock()
-		defer inst.actSchedLock.Unlock()
-	}
 
 	for _, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
-		if activeInst.isReleased(taskEntry.Task) {
-			//task was already skipped and released while entering a previous entry
-			continue
-		}
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
-		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
-		if taskInst.scheduled {
-			//task is already scheduled, by another link or by other goroutine. Lets skip this task
-			continue
-		}
-		taskInst.id = taskInst.taskID
-		enterResult := behavior.Enter(taskInst)
-		if enterResult == model.EREval {
-			err := applySettingsMapper(taskInst)
-			if err != nil {
-				return err
-			}
-			taskInst.scheduled = true
-			inst.scheduleEval(taskInst)
-		} else if enterResult == model.ERSkip {
+		taskInst, skipped, err := inst.enterTask(activeInst, behavior, taskEntry)
+		if err != nil {
+			return err
+		}
+		if skipped {
 			inst.handleTaskDone(behavior, taskInst)
 		}
 	}
@@ -751,6 +732,37 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 	return nil
 }
 
+// enterTask enters the task of the specified entry and schedules it if it is ready
+func (inst *IndependentInstance) enterTask(activeInst *Instance, behavior model.TaskBehavior, taskEntry *model.TaskEntry) (taskInst *TaskInst, skipped bool, err error) {
+	if inst.actSchedLock != nil {
+		// Lock is set only when concurrent executaion is enabled
+		inst.actSchedLock.Lock()
+		defer inst.actSchedLock.Unlock()
+	}
+
+	if activeInst.isReleased(taskEntry.Task) {
+		//task was already skipped and released while entering a previous entry
+		return nil, false, nil
+	}
+	taskInst, _ = activeInst.FindOrCreateTaskInst(taskEntry.Task)
+	if taskInst.scheduled || taskInst.status == model.TaskStatusSkipped {
+		//task is already scheduled or skipped, by another link or by other goroutine. Lets skip this task
+		return taskInst, false, nil
+	}
+	taskInst.id = taskInst.taskID
+	enterResult := behavior.Enter(taskInst)
+	if enterResult == model.EREval {
+		err := applySettingsMapper(taskInst)
+		if err != nil {
+			return taskInst, false, err
+		}
+		taskInst.scheduled = true
+		inst.scheduleEval(taskInst)
+	}
+
+	return taskInst, enterResult == model.ERSkip, nil
+}
+
 func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err error) {
 
 	if !inst.HasInterceptor() {
-- 
2.43.0


From 7c55f00d9f11452bd702e17f7f02bacb91266011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 09/43] fix: a task whose settings cannot be mapped fails
 instead of stalling the flow

---
 instance/ind_instance.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index d5142f3..554652d 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -722,7 +722,9 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, skipped, err := inst.enterTask(activeInst, behavior, taskEntry)
 		if err != nil {
-			return err
+			//task could not be entered, so it failed
+			inst.handleTaskError(behavior, taskInst, NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error()))
+			continue
 		}
 		if skipped {
 			inst.handleTaskDone(behavior, taskInst)
-- 
2.43.0


From 6a180df2e173df2abf90f2d554ee69d5c61aa0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 10/43] fix: repeat an iterator or do-while task whose activity
 finishes later

---
 model/simple/dowhilebehavior.go  | 10 ++++++++--
 model/simple/iteratorbehavior.go |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..86c2a67 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -63,9 +63,15 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 	defer dw.updateDoWhileIndex(ctx)
-	return dw.checkDoWhileCondition(ctx)
+	evalResult, err = dw.checkDoWhileCondition(ctx)
+	if evalResult == model.EvalRepeat {
+		//task has to be evaluated again, so it isn't done yet
+		ctx.SetStatus(model.TaskStatusReady)
+	} else {
+		ctx.SetStatus(model.TaskStatusDone)
+	}
+	return evalResult, err
 }
 
 func (dw *DoWhileTaskBehavior) checkDoWhileCondition(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..5b17a15 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -161,15 +161,17 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		//task has to be evaluated again, so it isn't done yet
+		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
 	}
 
+	ctx.SetStatus(model.TaskStatusDone)
 	return model.EvalDone, nil
 }
 
-- 
2.43.0


From a90894206d62c2f53118bbee76211a53093fce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 11/43] fix: a do-while condition that is not a boolean fails
 the task instead of panicking

---
 model/simple/dowhilebehavior.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 86c2a67..9cd5b8f 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/data"
+	"github.com/project-flogo/core/data/coerce"
 	"github.com/project-flogo/core/data/expression"
 	"github.com/project-flogo/flow/instance"
 	"github.com/project-flogo/flow/model"
@@ -90,7 +91,11 @@ func (dw *DoWhileTaskBehavior) evaluateCondition(ctx model.TaskContext, conditio
 		if err != nil {
 			return model.EvalFail, err
 		}
-		if result.(bool) {
+		repeat, err := coerce.ToBool(result)
+		if err != nil {
+			return model.EvalFail, err
+		}
+		if repeat {
 			delay := ctx.Task().LoopConfig().Delay()
 			if delay > 0 {
 				ctx.FlowLogger().Infof("Dowhile Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-- 
2.43.0


From c04e2295b2d4de203de965538bb5a0727dcb9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 12/43] fix: do not map the loop condition as a setting when a
 task is entered

---
 definition/definition_ser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 010a65a..91c79b8 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -169,7 +169,7 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		return nil, err
 	}
 
-	task.settingsMapper, err = mf.NewMapper(rep.Settings)
+	task.settingsMapper, err = mf.NewMapper(getMappedSettings(rep.Settings, task.loopCfg))
 	if err != nil {
 		return nil, err
 	}
@@ -192,6 +192,22 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 	return task, nil
 }
 
+// getMappedSettings returns the settings to map when the task is entered, the loop condition
+// isn't one of them because it is evaluated after each iteration
+func getMappedSettings(settings map[string]interface{}, loopCfg *LoopConfig) map[string]interface{} {
+	if _, exists := settings["condition"]; !exists || loopCfg == nil {
+		return settings
+	}
+
+	mapped := make(map[string]interface{}, len(settings))
+	for name, value := range settings {
+		if name != "condition" {
+			mapped[name] = value
+		}
+	}
+	return mapped
+}
+
 func createActivityConfig(task *Task, rep *activity.Config, ef expression.Factory) (*ActivityConfig, error) {
 
 	if rep.Ref == "" && rep.Type != "" {
-- 
2.43.0


From b910fba6a80f58d1c8af33b14dd1d81a2ced87bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 13/43] fix: do not freeze the result of a flow when it is
 asked for early

---
 instance/instance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index 9c01ed2..037b564 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -184,27 +184,29 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
+	returnData := inst.returnData
 
-		//construct returnData from instance attributes
+	if returnData == nil {
+
+		//construct returnData from instance attributes, don't keep it since the attributes can still change
 		md := inst.flowDef.Metadata()
 
 		if md != nil && md.Output != nil {
 
-			inst.returnData = make(map[string]interface{})
+			returnData = make(map[string]interface{})
 			for name := range md.Output {
 				piAttr, exists := inst.attrs[name]
 				if exists {
-					inst.returnData[name] = piAttr
+					returnData[name] = piAttr
 				}
 				if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
+					returnData[name] = md.Output[name].Value()
 				}
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From 4d53cb5d02a5c189d03c5636cae3a4dff68ceb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 14/43] fix: hand the declared outputs of a subflow without
 explicit return to the calling task

---
 instance/ind_instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 554652d..ecd6410 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -525,7 +525,8 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			host, ok := containerInst.host.(*TaskInst)
 
 			if ok {
-				host.SetOutputs(containerInst.returnData)
+				returnData, _ := containerInst.GetReturnData()
+				host.SetOutputs(returnData)
 				// Reset error if any
 				host.returnError = nil
 				//Sub flow done
-- 
2.43.0


From 09e33ac6c60d6ab96dab17a56fdf6cd12c79d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 15/43] fix: do not record the state of an instance without
 recorder

---
 instance/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..46b05a3 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,11 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil {
+		//nothing to record to
+		return nil
+	}
+
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
-- 
2.43.0


From 78d675b53bb58bc147546b0ea9b632ef9b4eb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 16/43] fix: deliver only one result for a failed flow with
 exception assertions

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index bb95e26..fc6a600 100644
--- a/action.go
+++ b/action.go
@@ -425,8 +425,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
-- 
2.43.0


From 12bb8338613b7bfb4d89df927fdef456a2b6b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 17/43] fix: report the error of a flow that fails in its last
 step, not the step limit

---
 action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index fc6a600..ef8a6aa 100644
--- a/action.go
+++ b/action.go
@@ -375,7 +375,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent flow execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil && inst.Status() != model.FlowStatusCompleted {
+			if err != nil && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				if inst.TracingContext() != nil {
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
@@ -393,7 +393,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				if inst.TracingContext() != nil {
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-- 
2.43.0


From babb9f9d2bc831f0b3a25663e972cf7464329612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 18/43] fix: deliver the id of an ondemand flow instance, not
 the method

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..05ee335 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -228,7 +228,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
-- 
2.43.0


From 81c2e139af1b5f3d3315b5eda6134efbe00094d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 19/43] fix: deliver only one result for an ondemand flow that
 fails in its last step

---
 ondemand/action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 05ee335..e1040a5 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -236,7 +236,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil {
+			if err != nil && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, err)
 			}
 		} else {
@@ -250,7 +250,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
-- 
2.43.0


From 8e76fa5193263b0a909cf28a556de6747ba0576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 20/43] fix: report a failing link expression as a link
 expression error

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ecd6410..d3cea99 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -493,7 +493,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	}
 
 	if err != nil {
-		err = fmt.Errorf("error handling task done transition for task [%s] in flow [%s] : %s", taskInst.Name(), inst.flowDef.Name(), err.Error())
+		err = definition.NewLinkExprError(fmt.Sprintf("error handling task done transition for task [%s] in flow [%s] : %s", taskInst.Name(), inst.flowDef.Name(), err.Error()))
 		taskInst.appendErrorData(err)
 		inst.HandleGlobalError(containerInst, err)
 		return
-- 
2.43.0


From e964f86cd57a2dc37e00f20314693956baf71d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 21/43] fix: publish the outputs of a resumed do-while task
 that accumulates

---
 instance/taskinst.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index fd004ae..10f7485 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -512,6 +512,13 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if err := ti.handleAccumulation(); err != nil {
 				return false, err
 			}
+
+			if cfg.ApplyOutputOnAccumulate() {
+				err = ti.applyOutputMapper()
+				if err != nil {
+					return done, err
+				}
+			}
 		} else if ti.task.ActivityConfig().OutputMapper() != nil {
 			appliedMapper, err := applyOutputMapper(ti)
 
-- 
2.43.0


From 4bb29914172f1d9f07a4b1f72c9cfb140b4d0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 22/43] fix: accept an interceptor without a coverage section

---
 support/interceptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..cc42640 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -38,6 +38,10 @@ type Interceptor struct {
 // Init initializes the FlowInterceptor, usually called after deserialization
 func (pi *Interceptor) Init() {
 
+	if pi.Coverage == nil {
+		pi.Coverage = &Coverage{}
+	}
+
 	numAttrs := len(pi.TaskInterceptors)
 	if numAttrs > 0 {
 
-- 
2.43.0


From 0dbe688b7ff676f845323ab09c3778b906e94448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 23/43] fix: build the mappers of a task patch from its
 mappings

---
 support/patch.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/support/patch.go b/support/patch.go
index b547e48..d3a61ae 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -3,6 +3,8 @@ package support
 import (
 	"github.com/project-flogo/core/data"
 	"github.com/project-flogo/core/data/mapper"
+	"github.com/project-flogo/core/support/log"
+	"github.com/project-flogo/flow/definition"
 )
 
 // Patch contains a set of task patches for a Flow Patch, this
@@ -22,6 +24,7 @@ func (pp *Patch) Init() {
 		pp.taskPatchMap = make(map[string]*TaskPatch, numAttrs)
 
 		for _, patch := range pp.TaskPatches {
+			patch.initMappers()
 			pp.taskPatchMap[patch.ID] = patch
 		}
 	}
@@ -68,6 +71,28 @@ type TaskPatch struct {
 	outputMapper mapper.Mapper
 }
 
+// initMappers creates the overriding mappers from the configured mappings
+func (tp *TaskPatch) initMappers() {
+
+	if len(tp.Input) > 0 && tp.inputMapper == nil {
+		m, err := definition.GetMapperFactory().NewMapper(tp.Input)
+		if err != nil {
+			log.RootLogger().Errorf("Unable to create input mapper for patch of task '%s': %v", tp.ID, err)
+		} else {
+			tp.inputMapper = m
+		}
+	}
+
+	if len(tp.Output) > 0 && tp.outputMapper == nil {
+		m, err := definition.GetMapperFactory().NewMapper(tp.Output)
+		if err != nil {
+			log.RootLogger().Errorf("Unable to create output mapper for patch of task '%s': %v", tp.ID, err)
+		} else {
+			tp.outputMapper = m
+		}
+	}
+}
+
 // InputMapper returns the overriding InputMapper
 func (tp *TaskPatch) InputMapper() mapper.Mapper {
 	return tp.inputMapper
-- 
2.43.0


From 95f137b0ee8c3c1eb6da3ae9edbc1bf01a4a2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 24/43] fix: report an activity that panics or fails on being
 resumed as failed

---
 instance/taskinst.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 10f7485..b24bfe8 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -314,6 +314,8 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 				evalErr = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
 				done = false
 			}
+			setActivityExecutionStatus(ti, support.Fail)
+			setActivityExecutionMessage(ti, evalErr.Error())
 		}
 		if evalErr != nil {
 			ti.logger.Errorf("Execution failed for Activity[%s] in Flow[%s] - %s", ti.task.ID(), ti.flowInst.flowDef.Name(), evalErr.Error())
@@ -476,6 +478,8 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 				evalErr = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
 				done = false
 			}
+			setActivityExecutionStatus(ti, support.Fail)
+			setActivityExecutionMessage(ti, evalErr.Error())
 		}
 		if evalErr != nil {
 			ti.logger.Errorf("Execution failed for Activity[%s] in Flow[%s] - %s", ti.task.Name(), ti.flowInst.flowDef.Name(), evalErr.Error())
@@ -493,11 +497,15 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if ok {
 				e.SetActivityName(ti.task.Name())
 			}
+			setActivityExecutionStatus(ti, support.Fail)
+			setActivityExecutionMessage(ti, evalErr.Error())
 
 			return false, evalErr
 		}
 	}
 	if ti.returnError != nil {
+		setActivityExecutionStatus(ti, support.Fail)
+		setActivityExecutionMessage(ti, ti.returnError.Error())
 		return false, ti.returnError
 	}
 
-- 
2.43.0


From 4cb4883184698993e87a202561b8dbfc5a595f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 25/43] fix: apply a patched input mapper to a task without
 input mappings

---
 instance/taskinst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index b24bfe8..97b98ff 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -329,7 +329,7 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		ti.traceContext, _ = trace.GetTracer().StartTrace(ti.SpanConfig(), ti.flowInst.tracingCtx)
 	}
 
-	if actCfg.InputMapper() != nil {
+	if actCfg.InputMapper() != nil || ti.flowInst.master.patch != nil {
 
 		err := applyInputMapper(ti)
 
-- 
2.43.0


From 51a404a851192ee81f0f39b694503f797a6361fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 26/43] fix: do not lock a flow instance twice when its
 attributes are updated

---
 instance/instance.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index 037b564..5b48582 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -293,10 +293,6 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
 
 	if len(attrs) > 0 {
 		for name, value := range attrs {
-- 
2.43.0


From 6f6860f7ebe7f20aa4cf6c5cd1d77a6f14b17b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 27/43] fix: record the values of the input defaults, also of
 those without a value

---
 instance/ind_instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index d3cea99..e47c33c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -226,9 +226,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
+				inst.changeTracker.AttrChange(toStart.subflowId, name, value.Value())
 			} else {
 				toStart.attrs[name] = nil
+				inst.changeTracker.AttrChange(toStart.subflowId, name, nil)
 			}
 		}
 	} else {
-- 
2.43.0


From 99492d27a88c38fe30a5a417b5f2bd89ddf23523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 28/43] fix: record the changes of a subflow under its id

---
 instance/instance_chg.go | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..6a5593c 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -133,11 +133,7 @@ func (sct *SimpleChangeTracker) SetStatus(subflowId int, status model.FlowStatus
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
 	}
-	fc, exists := sct.currentStep.FlowChanges[subflowId]
-	if !exists {
-		fc = &change.Flow{}
-		sct.currentStep.FlowChanges[subflowId] = fc
-	}
+	fc := getFlowChange(sct.currentStep, subflowId)
 
 	fc.Status = int(status)
 }
@@ -147,11 +143,7 @@ func (sct *SimpleChangeTracker) AttrChange(subflowId int, name string, value int
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
 	}
-	fc, exists := sct.currentStep.FlowChanges[subflowId]
-	if !exists {
-		fc = &change.Flow{}
-		sct.currentStep.FlowChanges[subflowId] = fc
-	}
+	fc := getFlowChange(sct.currentStep, subflowId)
 
 	if fc.Attrs == nil {
 		fc.Attrs = make(map[string]interface{})
@@ -232,9 +224,10 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
-					NewFlow: false,
-					FlowURI: subflow.flowURI,
-					Status:  int(subflow.status),
+					NewFlow:   false,
+					FlowURI:   subflow.flowURI,
+					SubflowId: subflow.subflowId,
+					Status:    int(subflow.status),
 				}
 				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
@@ -366,17 +359,23 @@ func getQueueChange(step *state.Step, workItemId int) *change.Queue {
 	return wc
 }
 
-func getTaskChange(step *state.Step, subflowId int, taskId string, flowname string) *change.Task {
+func getFlowChange(step *state.Step, subflowId int) *change.Flow {
 
 	fc, exists := step.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
+		fc = &change.Flow{SubflowId: subflowId}
 		step.FlowChanges[subflowId] = fc
-	} else {
-		fc.TaskId = taskId
-		if fc.FlowURI == "" {
-			fc.FlowURI = flowname
-		}
+	}
+
+	return fc
+}
+
+func getTaskChange(step *state.Step, subflowId int, taskId string, flowname string) *change.Task {
+
+	fc := getFlowChange(step, subflowId)
+	fc.TaskId = taskId
+	if fc.FlowURI == "" {
+		fc.FlowURI = flowname
 	}
 
 	if fc.Tasks == nil {
@@ -394,11 +393,7 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 
 func getLinkChange(step *state.Step, subflowId int, linkId int) *change.Link {
 
-	fc, exists := step.FlowChanges[subflowId]
-	if !exists {
-		fc = &change.Flow{}
-		step.FlowChanges[subflowId] = fc
-	}
+	fc := getFlowChange(step, subflowId)
 
 	if fc.Links == nil {
 		fc.Links = make(map[int]*change.Link, 2)
-- 
2.43.0


From 5a47ba53c984109ef1be846c560c3404c7752211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 29/43] fix: record the flow of a work item

---
 instance/instance_chg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a5593c..b2652dd 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -243,6 +243,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 }
 
@@ -252,6 +253,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 	qc.ChgType = change.Delete
 }
-- 
2.43.0


From df99cdf945b43bbbe0990f03dd8c21f9ec3ad511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 30/43] fix: record a task or link added again after its
 removal as added, number the first step

---
 instance/instance_chg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index b2652dd..d58717d 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -113,7 +113,7 @@ type SimpleChangeTrackerFactory struct {
 
 func (sf *SimpleChangeTrackerFactory) NewChangeTracker(flowId string, mode state.RecordingMode, startStepId int) ChangeTracker {
 
-	ct := &SimpleChangeTracker{flowId: flowId, mode: mode, stepCtr: startStepId, currentStep: &state.Step{FlowId: flowId, FlowChanges: make(map[int]*change.Flow)}}
+	ct := &SimpleChangeTracker{flowId: flowId, mode: mode, stepCtr: startStepId, currentStep: &state.Step{Id: startStepId, FlowId: flowId, FlowChanges: make(map[int]*change.Flow)}}
 	if IsConcurrentTaskExcutionEnabled() {
 		ct.lock = &sync.RWMutex{}
 	}
@@ -243,6 +243,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.ChgType = change.Add
 	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 }
@@ -264,6 +265,7 @@ func (sct *SimpleChangeTracker) TaskAdded(taskInst *TaskInst) {
 		sct.lock.Lock()
 	}
 	task := getTaskChange(sct.currentStep, taskInst.flowInst.subflowId, taskInst.taskID, taskInst.flowInst.flowURI)
+	task.ChgType = change.Add
 	task.Status = int(taskInst.status)
 }
 
@@ -296,6 +298,7 @@ func (sct *SimpleChangeTracker) LinkAdded(linkInst *LinkInst) {
 		sct.lock.Lock()
 	}
 	link := getLinkChange(sct.currentStep, linkInst.flowInst.subflowId, linkInst.id)
+	link.ChgType = change.Add
 	link.Status = int(linkInst.status)
 	if sct.mode == state.RecordingModeDebugger {
 		link.From = linkInst.link.FromTask().ID()
-- 
2.43.0


From 944b60b20bc616352d1f7fcd0ed24bbfd8052dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 31/43] fix: record the attributes written whenever changes are
 recorded

---
 instance/ind_instance.go | 7 +------
 instance/instance.go     | 4 +---
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index e47c33c..68dd6e7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -3,7 +3,6 @@ package instance
 import (
 	"errors"
 	"fmt"
-	"os"
 	"strconv"
 	"sync"
 	"time"
@@ -27,8 +26,7 @@ type IndependentInstance struct {
 	workItemQueue *support.SyncQueue //todo: change to faster non-threadsafe queue
 	wiCounter     int
 
-	trackingChanges bool
-	changeTracker   ChangeTracker
+	changeTracker ChangeTracker
 
 	flowModel   *model.FlowModel
 	patch       *flowsupport.Patch
@@ -72,9 +70,6 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.logger = logger
 
 	inst.status = model.FlowStatusNotStarted
-	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
-		inst.trackingChanges = true
-	}
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, 0)
 	inst.changeTracker.FlowCreated(inst)
 
diff --git a/instance/instance.go b/instance/instance.go
index 5b48582..4b83383 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -282,9 +282,7 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 	inst.attrs[name] = value
 
-	if inst.master.trackingChanges {
-		inst.master.changeTracker.AttrChange(inst.subflowId, name, value)
-	}
+	inst.master.changeTracker.AttrChange(inst.subflowId, name, value)
 
 	return nil
 }
-- 
2.43.0


From 448e55617cf34fc3b40bdbc26cefc82c3d98eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 32/43] fix: record the removal of the tasks given up by the
 error handler

---
 instance/ind_instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 68dd6e7..da83340 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -675,6 +675,9 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
+		for taskID := range containerInst.taskInsts {
+			inst.changeTracker.TaskRemoved(containerInst.subflowId, taskID)
+		}
 		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
-- 
2.43.0


From 4b85adc4b051cd89c8464893e00a996aa3bff5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 33/43] fix: rebuild subflows and the latest attributes from
 recorded steps without altering them

---
 state/util.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/state/util.go b/state/util.go
index 6fcce94..2e92f38 100644
--- a/state/util.go
+++ b/state/util.go
@@ -38,6 +38,7 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 							Id:           flowChange.SubflowId,
 							TaskId:       flowChange.TaskId,
 						}
+						subflows[flowChange.SubflowId] = subflow
 					}
 					UpdateFlow(subflow.SnapshotBase, flowChange)
 				} else {
@@ -90,9 +91,11 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
 		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
+			s.Attrs = make(map[string]interface{}, len(change.Attrs))
+		}
+		// the changes are applied from the latest to the oldest one
+		for name, value := range change.Attrs {
+			if _, exists := s.Attrs[name]; !exists {
 				s.Attrs[name] = value
 			}
 		}
-- 
2.43.0


From 7d0d4c07e3884d1f214ac5c9442376078a50bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 34/43] fix: report unknown statuses as unknown, not as created

---
 support/event/flowevents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/event/flowevents.go b/support/event/flowevents.go
index 8441c93..7a0f644 100644
--- a/support/event/flowevents.go
+++ b/support/event/flowevents.go
@@ -15,7 +15,7 @@ const (
 	SKIPPED   = "Skipped"
 	STARTED   = "Started"
 	WAITING   = "Waiting"
-	UNKNOWN   = "Created"
+	UNKNOWN   = "Unknown"
 )
 
 const FlowEventType = "flowevent"
-- 
2.43.0


From 229d73836d0f309dd5cdfc3a5dfe6a21505710a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 35/43] fix: report an invalid state recording mode

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index ef8a6aa..1afd1d4 100644
--- a/action.go
+++ b/action.go
@@ -94,7 +94,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 
diff --git a/ondemand/action.go b/ondemand/action.go
index e1040a5..abacf1b 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -109,7 +109,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 09caa73cdf1df300904a09b9a78bd10db475a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 36/43] fix: accept the task types of a default model that is
 referred to by its name

---
 model/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/registry.go b/model/registry.go
index 9877296..0363335 100644
--- a/model/registry.go
+++ b/model/registry.go
@@ -68,6 +68,7 @@ func RegisterDefault(flowModel *FlowModel) {
 
 	if _, dup := models[id]; !dup {
 		models[id] = flowModel
+		util.RegisterModelValidator(id, flowModel)
 	}
 
 	defaultModel = flowModel
-- 
2.43.0


From 1a4473c5e7345713b53376274d5d974f6300d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 37/43] fix: recognise a compressed flow file, report an empty
 one

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 558495d..125b739 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -91,7 +91,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) > 1 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From 1363243fef1537f46863fa693a6718aa9f55025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 38/43] fix: report an invalid uri of a remote flow

---
 support/manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/manager.go b/support/manager.go
index 125b739..0f6b2cd 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -105,6 +105,11 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 	} else if strings.HasPrefix(flowURI, uriSchemeHttp) {
 		req, err := http.NewRequest("GET", flowURI, nil)
+		if err != nil {
+			getErr := fmt.Errorf("error getting flow with uri '%s', %s", flowURI, err.Error())
+			logger.Errorf(getErr.Error())
+			return nil, getErr
+		}
 		client := &http.Client{}
 		resp, err := client.Do(req)
 		if err != nil {
-- 
2.43.0


From 22c6e04f3e62bdf2926226fdc8133a0c5a86cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 39/43] fix: list the running subflows in snapshots

---
 instance/ind_instance.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index da83340..80fa292 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -998,6 +998,7 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, &sfs)
 		}
 	}
 	return fs
-- 
2.43.0


From 430220ce6d58100492d44c41c895cdf85a7e0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 40/43] fix: know the error of a flow before it is seen as
 failed

---
 instance/ind_instance.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 80fa292..6b7b9e8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -628,6 +628,10 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 	} else {
 		if containerInst.isHandlingError {
 			//fail
+			if containerInst == inst.Instance {
+				// the error has to be known when the flow is seen as failed
+				inst.returnError = err
+			}
 			containerInst.SetStatus(model.FlowStatusFailed)
 
 			if containerInst != inst.Instance {
@@ -649,7 +653,6 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 				}
 			} else {
 				taskInst.appendErrorData(err)
-				inst.returnError = err
 			}
 
 		} else {
@@ -690,6 +693,10 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	} else {
 		// Print error message if no error handler
 		inst.logger.Error(err)
+		if containerInst == inst.Instance {
+			// the error has to be known when the flow is seen as failed
+			inst.returnError = err
+		}
 		containerInst.SetStatus(model.FlowStatusFailed)
 
 		if containerInst != inst.Instance {
@@ -709,8 +716,6 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 				host.returnError = err
 				inst.scheduleEval(host)
 			}
-		} else {
-			inst.returnError = err
 		}
 	}
 }
-- 
2.43.0


From 507f270da97c4ea5d628ec87d1b66c0d61675011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 41/43] fix: stop at the configured number of steps in
 concurrent mode

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6b7b9e8..aa01333 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -340,7 +340,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
 			wi := item.(*WorkItem)
-			if stepCount > util.GetMaxStepCount() {
+			if stepCount >= util.GetMaxStepCount() {
 				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
 			}
 			inst.ResetChanges()
-- 
2.43.0


From 896cf71c064aa07d10529261eb7e3eb65d3e4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 42/43] fix: refuse a run request with an unknown operation

---
 action.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/action.go b/action.go
index 1afd1d4..64067a5 100644
--- a/action.go
+++ b/action.go
@@ -295,6 +295,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		} else {
 			return errors.New("unable to resume instance, initial state not provided")
 		}
+	default:
+		return fmt.Errorf("unable to run flow, unknown operation [%d]", op)
 	}
 
 	if execOptions != nil {
-- 
2.43.0


From ae1b449c38894387ee0aef95ba6b20c561f6550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 43/43] fix: refuse a flow package that is not json

---
 ondemand/action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index abacf1b..ac254e3 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -179,7 +179,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if exists {
 
-		raw := fpAttr.(json.RawMessage)
+		raw, ok := fpAttr.(json.RawMessage)
+		if !ok {
+			return fmt.Errorf("invalid flow package, expected json but got %T", fpAttr)
+		}
 		err := json.Unmarshal(raw, flowPackage)
 		if err != nil {
 			return err
-- 
2.43.0

