// Shared declarations: package aliases, closed world, ghost state, frames.

import instance "flow/instance"
import model "flow/model"
import simple "flow/model/simple"
import definition "flow/definition"
import support "flow/support"
import state "flow/state"
import change "flow/state/change"
import event "flow/support/event"
import util "flow/util"
import activity "core/activity"
import coresupport "core/support"
import data "core/data"
import coerce "core/data/coerce"
import expression "core/data/expression"
import log "core/support/log"

closed model.TaskContext = *instance.TaskInst
closed model.TaskInstance = *instance.TaskInst
closed model.LinkInstance = *instance.LinkInst
closed model.FlowContext = *instance.Instance
closed model.FlowBehavior = *simple.FlowBehavior
closed model.TaskBehavior = *simple.TaskBehavior, *simple.IteratorTaskBehavior, *simple.DoWhileTaskBehavior
closed instance.ChangeTracker = *instance.NoopChangeTracker, *instance.SimpleChangeTracker

// everything the change recorder may touch
// the sequence of records made (their number; kind, flow, number/status, name and value/object of each)
ghost #rn int
ghost #rk [int] int
ghost #rs [int] int
ghost #ri [int] int
ghost #rname [int] string
ghost #rv [int] any
// the latest record of a value of that name
ghost #ai [string] int
// the latest record of the removal of a task of that name
ghost #di [string] int
// the records made when tasks were entered or run last
ghost #xrn int
ghost #xrk [int] int
ghost #xrs [int] int
ghost #xrv [int] any
ghost #xai [string] int
ghost #xdi [string] int
modset RECS = all instance.SimpleChangeTracker.*, all state.Step.*, all change.Flow.*, all change.Task.*, all change.Link.*, all change.Queue.*,
   all map[int]*change.Flow, all map[string]*change.Task, all map[int]*change.Link, all map[int]*change.Queue
modset TRACK = @RECS, #rn, #rk, #rs, #ri, #rname, #rv, #ai, #di

modset COVER = all support.Coverage.*

// witness of the last stable sort: position i of the sorted slice held element #perm[i] before
ghost #perm [int] int
ghost #pinv [int] int
