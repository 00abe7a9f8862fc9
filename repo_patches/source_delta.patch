From a629ab4341f565024dc757edec2f84089034b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 01/49] fix: a fork at a nondeterministic choice keeps the
 enabled status of the step

Fork() cleared Enabled, so a branch that executes no further enabling
statement (x = oneof [0, 1] followed by an if that is not taken, or an any
branch without effect after an assignment) was dropped and its state never
explored.
---
 modelchecker/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index cf59137..7859f67 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2419,6 +2419,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if !yield {
 		for _, fork := range forks {
 			newNode := node.ForkForAlternatePaths(fork, fork.Name)
+			if node.Enabled {
+				newNode.Enable()
+			}
 			if p.ShouldScheduleNode(newNode) {
 				// Intermediate forks carry choice information in fork.Name:
 				// "Stmt:N" / "Any:var=value" / "For:value" / "checkpoint".
-- 
2.43.0


From 8c5adcf832e145951cb7d7c894b1ea6a070ab458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 02/49] fix: keep the remaining statements when a nested block
 ends inside a parallel block

executeEndOfBlock dropped the forks for the remaining parallel statements:
a nested atomic block lost them, a nested serial block made the checker panic.
---
 modelchecker/thread.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 6ab6506..eb0dfe9 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -470,7 +470,7 @@ func (t *Thread) Execute() ([]*Process, bool) {
 	defer t.Process.propagateEnabled()
 	for t.Stack.Len() > 0 {
 		for t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$") {
-			yield = t.executeEndOfBlock()
+			forks, yield = t.executeEndOfBlockWithForks()
 			if yield {
 				if !hasNonEndOfBlockStmts && t.Process.GetThreadsCount() < initialThreads && t.Process.Parent != nil && t.Process.Parent.Enabled {
 					t.Process.Fairness = t.Fairness
@@ -478,6 +478,9 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				}
 				return forks, yield
 			}
+			if len(forks) > 0 {
+				return forks, false
+			}
 		}
 		hasNonEndOfBlockStmts = true
 		frame := t.currentFrame()
@@ -521,7 +524,11 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				return forks, true
 			}
 			for t.Stack.Len() > 0 && (t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$")) {
-				t.executeEndOfBlock()
+				// A nested block or a call ending inside a parallel block: the
+				// remaining parallel statements are the forks of this yield point.
+				if forks, _ = t.executeEndOfBlockWithForks(); len(forks) > 0 {
+					return forks, true
+				}
 			}
 
 			return forks, true
@@ -1217,9 +1224,16 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 }
 
 func (t *Thread) executeEndOfBlock() bool {
+	_, yield := t.executeEndOfBlockWithForks()
+	return yield
+}
+
+// executeEndOfBlockWithForks also returns the forks for the remaining statements when
+// the block that ended is itself a statement of a parallel block.
+func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 	frame := t.currentFrame()
 	if frame == nil {
-		return false
+		return nil, false
 	}
 	for {
 
@@ -1255,7 +1269,7 @@ func (t *Thread) executeEndOfBlock() bool {
 
 			if t.Stack.Len() == 0 {
 				t.Process.removeCurrentThread()
-				return true
+				return nil, true
 			} else {
 				frame = t.currentFrame()
 				// if protobuf is of type Function then it is a function call.
@@ -1284,8 +1298,7 @@ func (t *Thread) executeEndOfBlock() bool {
 					}
 					t.Process.updateAllVariablesInScope(returnedVars)
 					t.Process.RecordReturn(t.currentFrame(), oldFrame, starlark.None, oldScope.flow)
-					_, yield := t.executeEndOfStatement()
-					return yield
+					return t.executeEndOfStatement()
 				}
 
 			}
@@ -1293,7 +1306,7 @@ func (t *Thread) executeEndOfBlock() bool {
 		frame.pc = RemoveLastBlock(t.currentPc())
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
-			return yield
+			return forks, yield
 		}
 
 		if t.currentPc() != "" {
@@ -1303,9 +1316,9 @@ func (t *Thread) executeEndOfBlock() bool {
 	if frame.scope.flow == ast.Flow_FLOW_SERIAL ||
 		frame.scope.flow == ast.Flow_FLOW_PARALLEL {
 		// Only yield if there was at least one executable statement
-		return t.Process.Enabled
+		return nil, t.Process.Enabled
 	}
-	return false
+	return nil, false
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-- 
2.43.0


From d0f33d923a54dacd2d81a91bd0bc41dabf011bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 03/49] fix: a role crash abandons only the threads of the
 crashed instance

crashRole compared role type names, so crashing one instance also removed
the in-flight threads running in every other instance of the same role.
---
 modelchecker/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 7859f67..03cfe69 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2535,7 +2535,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 		return nil, nil
 	}
 	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
 			continue
 		}
 		crashNode.removeThread(i)
-- 
2.43.0


From 9496de453549434239741908a8110b05d1bf71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 04/49] fix: a message delivery keeps the pending statements of
 an in-flight parallel block

At a yield point inside a parallel block the next statement is chosen in the
forks; deliveries were forked from the undecided process, so the sending
thread could never continue after them.
---
 modelchecker/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 03cfe69..25857b6 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3188,7 +3188,7 @@ func (p *Processor) YieldNode(node *Node) {
 			p.enqueueScheduled(newNode)
 		}
 	}
-	p.scheduleChannelMessages(node)
+	p.scheduleChannelMessages(node, node.Process)
 	if node.actionDepth >= int(p.config.Options.MaxActions) ||
 		node.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
 		return
@@ -3239,7 +3239,7 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 			p.enqueueScheduled(newNode)
 		}
 	}
-	p.scheduleChannelMessages(node)
+	p.scheduleChannelMessages(node, process)
 	if node.actionDepth >= int(p.config.Options.MaxActions) ||
 		process.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
 
@@ -3254,11 +3254,11 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 	}
 }
 
-func (p *Processor) scheduleChannelMessages(node *Node) {
-	for i, msgs := range node.ChannelMessages {
+func (p *Processor) scheduleChannelMessages(node *Node, process *Process) {
+	for i, msgs := range process.ChannelMessages {
 		for j, _ := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
-			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
+			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
 			newMsg := newNode.ChannelMessages[i][j]
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
 			thread := newNode.Process.NewThread()
-- 
2.43.0


From 558ce0351e46d58875fa3a604c31fd138f238579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 05/49] fix: roles crash at a state that was first reached by a
 crash

---
 modelchecker/processor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 25857b6..085f592 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1152,6 +1152,7 @@ type Processor struct {
 	stopped            bool
 	dirPath            string
 	intermediateStates lib.LinearCollection[*Node]
+	reachedCrashNode   *Node // set by processNode: the state it reached is a crash node
 	simulation         bool
 	random             rand.Rand
 	Seed               int64
@@ -1576,14 +1577,20 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 		if p.guidedTrace != nil {
 			p.visited = make(map[string]*Node)
 		}
+		// A state so far known only as the result of a crash is reached by
+		// running: it is now an ordinary yield point, where roles can crash.
+		crashPoint := finalNode
+		if p.reachedCrashNode != nil {
+			crashPoint, p.reachedCrashNode = p.reachedCrashNode, nil
+		}
 
 		// no_graph mode disables crash simulation: crashRole/crashThread
 		// rely on visited/Attach/Inbound to register the crash variant in
 		// the graph, none of which work when the graph is dropped. A
 		// warning is printed at startup; revisit in a follow-up if
 		// crash-resilience simulation is needed in no_graph mode.
-		if finalNode.Process != nil && p.config.Options.GetCrashOnYield() && finalNode.Enabled && (finalNode.Name == "yield" || finalNode.Name == "crash") && !p.experimentalNoGraph {
-			crashed := p.crashProcess(finalNode)
+		if crashPoint.Process != nil && p.config.Options.GetCrashOnYield() && crashPoint.Enabled && (crashPoint.Name == "yield" || crashPoint.Name == "crash") && !p.experimentalNoGraph {
+			crashed := p.crashProcess(crashPoint)
 			if crashed != nil && crashFailedNode == nil {
 				crashFailedNode = crashed
 			}
@@ -2386,6 +2393,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 				if p.shouldThreadCrash(other) {
 					p.crashThread(other)
 				}
+				p.reachedCrashNode = other
 			}
 			node.Duplicate(other, yield)
 			// Count this as a "live successor" signal for the early
-- 
2.43.0


From 9f778322d954c95701c5802b5cbc7715063b7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 06/49] fix: break and continue inside an any block leave the
 any's scope

---
 modelchecker/thread.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index eb0dfe9..56b23a7 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -780,6 +780,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		for !(strings.HasSuffix(currentFrame.pc, ".ForStmt") || strings.HasSuffix(currentFrame.pc, ".WhileStmt")) {
 			currentFrame.pc = RemoveLastBlock(currentFrame.pc)
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// leave the scope of the any statement's variable too
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.scope = currentFrame.scope.parent
 		currentFrame.pc = RemoveLastLoop(currentFrame.pc)
@@ -792,6 +796,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				break
 			}
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.pc = currentFrame.pc + ".Block.$"
 		return nil, false
-- 
2.43.0


From 163ff3c9571b006ca3735f71d80c87cd99320762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 07/49] fix: a path through a merged choice node stays in the
 graph

---
 modelchecker/markovchain.go | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index e7c092e..6747489 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -484,7 +484,45 @@ func traverseDFS(node *Node, visited map[*Node]bool, result *[]*Node, yield *int
 	}
 }
 
+// enableMergedPaths enables every mid-action node that leads to an enabled node. A choice
+// branch that was merged into an already visited node does not run again, so its own
+// parents never learned that the branch is enabled.
+func enableMergedPaths(rootNode *Node) {
+	seen := map[*Node]bool{rootNode: true}
+	pending := []*Node{rootNode}
+	parents := make(map[*Node][]*Node)
+	enabled := make([]*Node, 0)
+	for len(pending) > 0 {
+		node := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		if node.Process == nil {
+			continue
+		}
+		if node.Enabled {
+			enabled = append(enabled, node)
+		}
+		for _, link := range node.Outbound {
+			parents[link.Node] = append(parents[link.Node], node)
+			if !seen[link.Node] {
+				seen[link.Node] = true
+				pending = append(pending, link.Node)
+			}
+		}
+	}
+	for len(enabled) > 0 {
+		node := enabled[len(enabled)-1]
+		enabled = enabled[:len(enabled)-1]
+		for _, parent := range parents[node] {
+			if !parent.Enabled {
+				parent.Enabled = true
+				enabled = append(enabled, parent)
+			}
+		}
+	}
+}
+
 func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, int) {
+	enableMergedPaths(rootNode)
 	msgs := make([]string, 0)
 	msgSet := make(map[string]int)
 	type stat struct {
-- 
2.43.0


From 965918aea6e32d8889bdfdac8fbe9ddd6a0fb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 08/49] fix: pass, choices and if as statements of a oneof or
 parallel block

---
 modelchecker/protopath.go |  3 ++-
 modelchecker/thread.go    | 29 +++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/modelchecker/protopath.go b/modelchecker/protopath.go
index a282779..eeb1765 100644
--- a/modelchecker/protopath.go
+++ b/modelchecker/protopath.go
@@ -225,6 +225,7 @@ func replaceLastStmts(input, replacement string) string {
 	}
 
 	lastMatch := matches[len(matches)-1]
-	result := input[:lastMatch[0]] + replacement + input[lastMatch[1]:]
+	// The rest of the path lies inside the replaced statement.
+	result := input[:lastMatch[0]] + replacement
 	return result
 }
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 56b23a7..bae06c4 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -484,6 +484,14 @@ func (t *Thread) Execute() ([]*Process, bool) {
 		}
 		hasNonEndOfBlockStmts = true
 		frame := t.currentFrame()
+		if strings.HasSuffix(frame.pc, endOfChoice) {
+			frame.pc = strings.TrimSuffix(frame.pc, endOfChoice)
+			forks, yield = t.executeEndOfStatement()
+			if len(forks) > 0 || yield {
+				return forks, yield
+			}
+			continue
+		}
 		protobuf := GetProtoFieldByPath(t.currentFileAst(), frame.pc)
 
 		switch msg := protobuf.(type) {
@@ -593,6 +601,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	if stmt.PyStmt != nil {
 		if stmt.PyStmt.GetCode() == "pass" {
 			t.Process.Enable()
+			if !t.runsNextStatement() {
+				return t.executeEndOfStatement()
+			}
 			t.currentFrame().pc = t.FindNextProgramCounter()
 			return nil, false
 		}
@@ -720,6 +731,8 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 
 			if stmt.AnyStmt.Block != nil {
 				fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.AnyStmt.Block", currentFrame.pc)
+			} else if !t.runsNextStatement() {
+				fork.currentThread().currentFrame().pc = currentFrame.pc + endOfChoice
 			} else {
 				fork.currentThread().currentFrame().pc = t.FindNextProgramCounter()
 			}
@@ -1183,9 +1196,25 @@ func removeElement[T any](slice []T, index int) []T {
 	return append(newSlice, slice[index+1:]...)
 }
 
+// endOfChoice marks the pc of a `x = oneof ...` statement of a oneof or parallel block
+// that has made its choice.
+const endOfChoice = ".$choice"
+
+// runsNextStatement tells whether the current block runs its statements one after the other.
+func (t *Thread) runsNextStatement() bool {
+	flow := t.currentFrame().scope.flow
+	return flow != ast.Flow_FLOW_ONEOF && flow != ast.Flow_FLOW_PARALLEL
+}
+
 func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	enabled := t.Process.Enabled
 	currentFrame := t.currentFrame()
+	if parent := currentFrame.scope.parent; strings.HasSuffix(currentFrame.pc, ".AnyStmt") && parent != nil &&
+		(parent.flow == ast.Flow_FLOW_ONEOF || parent.flow == ast.Flow_FLOW_PARALLEL) {
+		// The any block is one statement of a oneof or parallel block.
+		currentFrame.pc = strings.TrimSuffix(currentFrame.pc, ".AnyStmt")
+		currentFrame.scope = parent
+	}
 	switch currentFrame.scope.flow {
 	case ast.Flow_FLOW_ATOMIC:
 		currentFrame.pc = t.FindNextProgramCounter()
-- 
2.43.0


From 9ae6e05cd3ac4de380db3b3c6fb8d289e488288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 09/49] fix: states in different parallel blocks are not merged

---
 modelchecker/thread.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index bae06c4..766e885 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -288,6 +288,10 @@ type CallFrame struct {
 
 	callerAssignVarNames []string
 	obj                  *lib.Role
+
+	// parallelBlock identifies the point where the next statement of a parallel block is not
+	// chosen yet (the pc is empty then): the path of the block, and whether it is a yield point.
+	parallelBlock string
 }
 
 func (c *CallFrame) MarshalJSON() ([]byte, error) {
@@ -307,6 +311,7 @@ func (c *CallFrame) HashCode() string {
 	// if program counter is at different stmts.
 	h := c.scope.Hash()
 	h.Write([]byte(c.pc))
+	h.Write([]byte(c.parallelBlock))
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
@@ -331,6 +336,7 @@ func (c *CallFrame) Clone(refs map[starlark.Value]starlark.Value, permutations m
 		vars:                 newVars,
 		callerAssignVarNames: c.callerAssignVarNames,
 		obj:                  obj,
+		parallelBlock:        c.parallelBlock,
 	}
 	return newFrame, nil
 }
@@ -1249,10 +1255,12 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 			fork := t.Process.Fork()
 			fork.Name = fmt.Sprintf("Stmt:%d", i)
 			fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.Stmts[%d]", blockPath, i)
+			fork.currentThread().currentFrame().parallelBlock = ""
 			fork.currentThread().currentFrame().scope.skipstmts = append(fork.currentThread().currentFrame().scope.skipstmts, i)
 			forks = append(forks, fork)
 		}
 		currentFrame.pc = ""
+		currentFrame.parallelBlock = fmt.Sprintf("%s yield=%v", blockPath, enabled)
 		return forks, enabled
 	default:
 		panic(fmt.Sprintf("Unknown flow type at %s", t.currentPc()))
-- 
2.43.0


From 1723de0e11d0af61498eb0f35555d0aae9237e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 10/49] fix: in-flight calls with different arguments are
 different states

---
 modelchecker/thread.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 766e885..427dcf3 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -312,6 +312,9 @@ func (c *CallFrame) HashCode() string {
 	h := c.scope.Hash()
 	h.Write([]byte(c.pc))
 	h.Write([]byte(c.parallelBlock))
+	if len(c.vars) > 0 {
+		h.Write([]byte(StringDictToJsonString(c.vars)))
+	}
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
-- 
2.43.0


From 3fb7768e57c73850b04c524dae1d7a43d22f9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 11/49] fix: a step that starts at a crash is not itself a
 yield point

---
 modelchecker/processor.go | 6 ++++++
 modelchecker/thread.go    | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 085f592..8c8a884 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2310,6 +2310,12 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		}
 
 	}
+	if node.Name == "yield" || node.Name == "crash" {
+		// A thread continuation or a message delivery starts with the name of
+		// the yield point it leaves. Until it reaches the next one, it is named
+		// after its action like any other step.
+		node.Name = node.currentThread().actionName()
+	}
 	node.CachedHashCode = ""
 	forks, yield := node.currentThread().Execute()
 	if len(forks) == 0 && !node.Enabled && !node.ThreadProgress {
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 427dcf3..39946c8 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -433,6 +433,15 @@ func (t *Thread) ExitScope() *Scope {
 	return scope
 }
 
+// actionName is the name of the action (or delivered function) that the thread runs.
+func (t *Thread) actionName() string {
+	frame := t.Stack.RawArray()[0]
+	if frame.obj == nil {
+		return frame.Name
+	}
+	return frame.obj.RefStringShort() + "." + strings.TrimPrefix(frame.Name, frame.obj.Name+".")
+}
+
 func (t *Thread) currentFrame() *CallFrame {
 	frame, ok := t.Stack.Peek()
 	PanicIfFalse(ok, "No frame on the stack")
-- 
2.43.0


From 31c1486800572fa0813dc313486a4b372dfa1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 12/49] fix: transition assertions and refinement relate
 consecutive yield points

Both compared each step's mid-step states at nondeterministic choices, which
are not states of the model: violations split over a choice were missed, and
states that never exist were reported. A step that changes no state variable
is now accepted as documented.
---
 modelchecker/invariants.go | 51 ++++++++++++++++++++++++++++----------
 modelchecker/processor.go  | 25 ++++++++++++++++---
 2 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d6104ac..d2edd73 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -24,11 +24,41 @@ func NewInvariantPosition(fileIndex, invariantIndex int) *InvariantPosition {
 	}
 }
 
+// previousYield returns the state the current step started from: the last
+// yield point on the way to process. Mid-step states, where the step only
+// forked at a nondeterministic choice, are not states of the model.
+func (p *Process) previousYield() *Process {
+	before := p.Parent
+	for before != nil && !before.IsYieldNode() {
+		before = before.Parent
+	}
+	return before
+}
+
+// sameVariables tells whether a step changed neither a state variable nor a
+// field of a role.
+func sameVariables(before, after *Process) bool {
+	if before.Heap.HashCode() != after.Heap.HashCode() || len(before.Roles) != len(after.Roles) {
+		return false
+	}
+	for i, role := range before.Roles {
+		b, err := role.MarshalJSON()
+		PanicOnError(err)
+		a, err := after.Roles[i].MarshalJSON()
+		PanicOnError(err)
+		if string(b) != string(a) {
+			return false
+		}
+	}
+	return true
+}
+
 func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes JoinHashes) bool {
-	if process.Parent == nil {
+	before := process.previousYield()
+	if before == nil {
 		return true
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	if sameVariables(before, process) {
 		return true
 	}
 	fnName := ""
@@ -38,7 +68,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 			break
 		}
 	}
-	fromState := ExecFunction(process.Parent.CloneForAssert(nil, 0), fnName).String()
+	fromState := ExecFunction(before.CloneForAssert(nil, 0), fnName).String()
 	toState := ExecFunction(process.CloneForAssert(nil, 0), fnName).String()
 
 	key := HashKey(fromState + "," + toState)
@@ -51,10 +81,8 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 }
 
 func CheckTransitionInvariants(process *Process) map[int][]int {
-	if process.Parent == nil {
-		return nil
-	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	before := process.previousYield()
+	if before == nil || sameVariables(before, process) {
 		return nil
 	}
 	results := make(map[int][]int)
@@ -62,7 +90,7 @@ func CheckTransitionInvariants(process *Process) map[int][]int {
 		results[i] = make([]int, 0)
 		for j, invariant := range file.Invariants {
 			if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
-				passed := CheckTransitionAssertion(process, invariant, j)
+				passed := CheckTransitionAssertion(before, process, invariant, j)
 				if !passed {
 					results[i] = append(results[i], j)
 				}
@@ -215,10 +243,7 @@ func execFunctionBlock(cloned *Process, name string, pc string) starlark.Value {
 	}
 }
 
-func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index int) bool {
-	if process.Parent == nil {
-		return true
-	}
+func CheckTransitionAssertion(before, process *Process, invariant *ast.Invariant, index int) bool {
 	beforeParam, afterParam := "before", "after"
 	if len(invariant.Params) == 2 {
 		beforeParam, afterParam = invariant.Params[0].GetName(), invariant.Params[1].GetName()
@@ -227,7 +252,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.Parent.Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), before.Heap.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8c8a884..6d755a7 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2349,14 +2349,12 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	// So, we might miss some invariants. However, since the yield points are
 	// determined by the statement, and we include program counter in the hash code,
 	// this may not be an issue.
-	if node.actionDepth > 0 {
+	if node.actionDepth > 0 && yield {
 		failedInvariants := CheckTransitionInvariants(node.Process)
 		if len(failedInvariants[0]) > 0 {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
-				if yield {
-					node.Name = "yield"
-				}
+				node.Name = "yield"
 				node.Attach()
 				p.intermediateStates.ClearAll()
 				return true, false
@@ -2380,6 +2378,14 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	}
 
 	other, found, canonicalHash := p.findVisitedSymmetric(node)
+	if !yield && p.relatesStates() {
+		// The rest of the step is judged together with the state it started
+		// from, so steps from different states must not be merged midway.
+		if before := node.previousYield(); before != nil {
+			canonicalHash += "," + before.HashCode()
+			other, found = p.visited[canonicalHash]
+		}
+	}
 	if p.experimentalNoGraph {
 		// No-graph mode: visited stores hashes only (values are nil). Skip
 		// Attach (no graph edges) and skip the Enabled-vs-existing logic
@@ -2479,6 +2485,17 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	return false, false
 }
 
+// relatesStates tells whether the model has properties of transitions
+// (transition assertions or a refinement) rather than only of states.
+func (p *Processor) relatesStates() bool {
+	for _, invariant := range p.Files[0].Invariants {
+		if slices.Contains(invariant.TemporalOperators, "transition") {
+			return true
+		}
+	}
+	return len(p.Files[0].Refinements) > 0
+}
+
 func (p *Processor) crashProcess(node *Node) *Node {
 	// For each thread, iterate over the stack frames from the deepest to the top.
 	// find all the roles that present in the nested layers of the stack frames, but not at the top in each thread.
-- 
2.43.0


From 5eaaba34655f76df04a2310ed561d80a39713574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 13/49] fix: transition assertions hold for the crash of a role
 as well

---
 modelchecker/processor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 6d755a7..a078512 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2575,7 +2575,15 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	p.ResetEphemeralVariables(crashNode, role)
 	crashNode.Enable()
 
-	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	failedInvariants := CheckTransitionInvariants(crashFork)
+	if len(failedInvariants[0]) > 0 {
+		crashNode.Inbound[0].FailedInvariants = failedInvariants
+		if !p.config.ContinuePathOnInvariantFailures {
+			crashNode.Attach()
+			return crashNode, crashNode
+		}
+	}
+	failedInvariants = CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
 	if len(failedInvariants[0]) > 0 {
 		crashNode.Process.FailedInvariants = failedInvariants
 		if !p.config.ContinuePathOnInvariantFailures {
-- 
2.43.0


From 91a86eda3430c07268a9c80f9998273ba2629700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 14/49] fix: counterexample report of a path that stops inside
 a parallel block

---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 39946c8..503a3f8 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1415,6 +1415,10 @@ type CodeSnippet interface {
 }
 
 func (t *Thread) CurrentPcSourceInfo() *ast.SourceInfo {
+	if t.currentPc() == "" {
+		// between two statements of a parallel block
+		return &ast.SourceInfo{}
+	}
 	protoMsg := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
 	if protoMsg == nil {
 		return &ast.SourceInfo{}
-- 
2.43.0


From 2b600dcfd56ea90984ba33515add819481744633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 15/49] fix: deadlocks are found on the graph, also where steps
 share a choice point

---
 modelchecker/markovchain.go | 60 +++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index 6747489..4663693 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -527,25 +527,20 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 	msgSet := make(map[string]int)
 	type stat struct {
 		index int
-		deadNode *Node
-		livePaths int
 	}
 	visited := make(map[*Node]*stat)
 	var result []*Node
-	type queuedEntry struct {
-		node *Node
-		yieldNode *Node
-	}
-	queue := lib.NewQueue[*queuedEntry]()
-	queue.Enqueue(&queuedEntry{
-		node:      rootNode,
-		yieldNode: rootNode,
-	})
+	// Nodes from which some step, other than a crash, reaches a yield point.
+	// Several yield points can share the mid-step choice nodes on the way.
+	live := make(map[*Node]bool)
+	liveQueue := lib.NewQueue[*Node]()
+	midStepParents := make(map[*Node][]*Node)
+	queue := lib.NewQueue[*Node]()
+	queue.Enqueue(rootNode)
 	yield := 0
 	maxDepth := 0
 	for queue.Count() > 0 {
-		entry, _ := queue.Dequeue()
-		node := entry.node
+		node, _ := queue.Dequeue()
 		if _, ok := visited[node]; ok {
 			continue
 		}
@@ -563,34 +558,22 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			maxDepth = node.forkDepth
 		}
 		enabledLinks := make([]*Link, 0)
-		crashLinks := 0
 		for _, link := range node.Outbound {
 			if !link.Node.Enabled {
 				continue
 			}
 			enabledLinks = append(enabledLinks, link)
-			if link.IsCrashLink() {
-				crashLinks++
-			}
 		}
 		node.Outbound = enabledLinks
 
-		if len(enabledLinks)-crashLinks == 0 && visited[entry.yieldNode].deadNode == nil {
-			visited[entry.yieldNode].deadNode = node
-		}
-
 		for _, link := range node.Outbound {
-			yieldNode := entry.yieldNode
-			if link.Node.Name == "yield" || link.Node.Name == "init" || link.Node.Name == "crash" {
-				if !link.IsCrashLink() {
-					visited[yieldNode].livePaths++
-				}
-				yieldNode = link.Node
+			if link.Node.Name != "yield" && link.Node.Name != "init" && link.Node.Name != "crash" {
+				midStepParents[link.Node] = append(midStepParents[link.Node], node)
+			} else if !link.IsCrashLink() && !live[node] {
+				live[node] = true
+				liveQueue.Enqueue(node)
 			}
-			queue.Enqueue(&queuedEntry{
-				node:      link.Node,
-				yieldNode: yieldNode,
-			})
+			queue.Enqueue(link.Node)
 
 			if link.Type == "action" {
 				if node == link.Node || node.HashCode() == link.Node.HashCode() {
@@ -646,10 +629,21 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			}
 		}
 	}
+	for liveQueue.Count() > 0 {
+		node, _ := liveQueue.Dequeue()
+		for _, parent := range midStepParents[node] {
+			if !live[parent] {
+				live[parent] = true
+				liveQueue.Enqueue(parent)
+			}
+		}
+	}
 	var deadlock *Node
 	for _, node := range result {
-		entry := visited[node]
-		if entry.deadNode != nil && entry.livePaths == 0 && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
+		if node != rootNode && node.Name != "yield" && node.Name != "init" && node.Name != "crash" {
+			continue
+		}
+		if !live[node] && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
 			// Return the yield node itself (not the dead non-yield node) so the
 			// deadlock trace stops at the meaningful stuck state rather than
 			// pointing into a dead nondeterministic branch.
-- 
2.43.0


From 41e31a350e421ad55a5d1818d1cf7d0b07a65c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 16/49] fix: a waiting role instance does not crash after
 another instance crashed either

---
 modelchecker/processor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index a078512..fd5583c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2537,7 +2537,11 @@ func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
 	var failedNode *Node
 	var crashNode *Node
 	for _, role := range node.Roles {
-		if !slices.Contains(safeRolesList, role) {
+		// The instances of a crash node are copies of those in the list.
+		isSafe := slices.ContainsFunc(safeRolesList, func(safe *lib.Role) bool {
+			return safe.RefStringShort() == role.RefStringShort()
+		})
+		if !isSafe {
 			crashNode, failedNode = p.crashRole(node, role)
 			if failedNode != nil {
 				return failedNode
-- 
2.43.0


From 53a624984d38675944157bc742c209dbe5a1c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 17/49] fix: branches of a choice over mutable elements update
 their own copy

---
 modelchecker/processor.go |  8 +++++++-
 modelchecker/thread.go    | 14 ++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index fd5583c..637aa57 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -342,6 +342,12 @@ func (p *Process) IsYieldNode() bool {
 }
 
 func (p *Process) Fork() *Process {
+	p2, _ := p.forkWithRefs()
+	return p2
+}
+
+// forkWithRefs also returns the map from the values of the process to their copies in the fork.
+func (p *Process) forkWithRefs() (*Process, map[starlark.Value]starlark.Value) {
 	refs := make(map[starlark.Value]starlark.Value)
 
 	p2 := &Process{
@@ -399,7 +405,7 @@ func (p *Process) Fork() *Process {
 		}
 	}
 
-	return p2
+	return p2, refs
 }
 
 func (p *Process) CloneForAssert(permutations map[*lib.SymmetricValue][]*lib.SymmetricValue, alt int) *Process {
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 503a3f8..7b52598 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -715,7 +715,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.Process.Fork()
+			fork, refs := t.Process.forkWithRefs()
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
 			if r, ok := x.(*lib.Role); ok {
@@ -725,6 +725,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 						break
 					}
 				}
+			} else {
+				// The element as it is in the fork, so that the branch updates its own state.
+				x, err = deepCloneStarlarkValue(x, refs)
+				t.Process.PanicOnError(stmt.AnyStmt.GetSourceInfo(), fmt.Sprintf("Error copying an element of: %s", stmt.AnyStmt.PyExpr), err)
 			}
 			if stmt.AnyStmt.Block == nil {
 				fork.updateVariable(stmt.AnyStmt.LoopVars[0], x)
@@ -1162,6 +1166,9 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
 		fork := t.Process.Fork()
+		// The elements as they are in the fork, so that the branch updates its own state.
+		forkScope := fork.currentThread().currentFrame().scope
+		x = forkScope.loopRange[i]
 		if r, ok := x.(*lib.Role); ok {
 			for _, role := range fork.Roles {
 				if r.RefString() == role.RefString() {
@@ -1170,10 +1177,9 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 				}
 			}
 		}
-		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
+		forkScope.vars[scope.loopVars[0]] = x
 		fork.Name = fmt.Sprintf("For:%s", x.String())
-		newSlice := removeElement(scope.loopRange, i)
-		fork.currentThread().currentFrame().scope.loopRange = newSlice
+		forkScope.loopRange = removeElement(forkScope.loopRange, i)
 
 		forks = append(forks, fork)
 	}
-- 
2.43.0


From 701fb63f821fc9ef8fe12297d7eed7440a36104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 18/49] fix: role instances may refer to each other

---
 lib/starlark_role.go  |  7 +++++++
 modelchecker/clone.go | 21 +++++++++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index d247ec4..e62bd1c 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -56,6 +56,8 @@ type Role struct {
 	RoleMethods map[string]*starlark.Builtin
 	InitValues  *Struct
 
+	printing bool // set while String() prints the fields, that may refer back to this role
+
 	// Ref field is removed. Use GetRef() to retrieve the integer ID from the ID field.
 }
 
@@ -127,6 +129,11 @@ func (r *Role) AttrNames() []string {
 }
 
 func (r *Role) String() string {
+	if r.printing {
+		return r.RefString()
+	}
+	r.printing = true
+	defer func() { r.printing = false }()
 	b := strings.Builder{}
 	b.WriteString(fmt.Sprintf("role %s#%d (", r.Name, r.GetRef()))
 	if len(r.Params.AttrNames()) > 0 {
diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index e86df9b..abee101 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -247,25 +247,26 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		if cached, ok := refs[value]; ok {
 			return cached, nil
 		} else {
-			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
-			if err != nil {
-				return nil, err
-			}
-			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
-			if err != nil {
-				return nil, err
-			}
 			newRole := &lib.Role{
 				ID:          id,
 				Name:        prefix,
 				Symmetric:   r.IsSymmetric(),
-				Params:      params.(*lib.Struct),
-				Fields:      fields.(*lib.Struct),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
 				InitValues:  r.InitValues,
 			}
+			// Before cloning the params and fields, as they may refer back to this role
 			refs[value] = newRole
+			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			newRole.Params = params.(*lib.Struct)
+			newRole.Fields = fields.(*lib.Struct)
 			return newRole, nil
 		}
 	default:
-- 
2.43.0


From c8e6d1dd7a26b707a5c0b38c4f032179f8e5a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 19/49] fix: values and roles inside a struct are copied with
 the state

---
 modelchecker/clone.go         | 12 ++++++++++--
 modelchecker/state_visitor.go | 10 +++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index abee101..8e86367 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 func deepCloneStarlarkValue(value starlark.Value, refs map[starlark.Value]starlark.Value) (starlark.Value, error) {
@@ -25,10 +26,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	// "builtin_function_or_method".
 	switch value.Type() {
 
-	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "struct", "symmetric_values", "Channel", "symmetry_domain":
+	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "symmetric_values", "Channel", "symmetry_domain":
 		//case starlark.Bool, starlark.String, starlark.Int:
 		// For simple values, just return a copy
-		// Also starlark struct is immutable
 		// symmetry_domain is stateless configuration (Name, Limit, DomainType)
 		return value, nil
 
@@ -131,6 +131,14 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		newDict := CloneDict(dict, refs, permutations, alt)
 		newVal.ReplaceEntriesFromStringDict(newDict)
 		return newVal, nil
+	case "struct":
+		// A struct is immutable, but its fields can hold mutable values and roles
+		v := value.(*starlarkstruct.Struct)
+		dict := starlark.StringDict{}
+		v.ToStringDict(dict)
+		newVal := starlarkstruct.FromStringDict(v.Constructor(), CloneDict(dict, refs, permutations, alt))
+		refs[value] = newVal
+		return newVal, nil
 	case "RoleStub":
 		// TODO(jp): Should this also reuse cached refs?
 		r := value.(*lib.RoleStub)
diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 866674d..ca9e002 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 // StateVisitor defines the interface for visiting state elements during traversal
@@ -106,7 +107,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 
 	switch value.Type() {
 	case "NoneType", "int", "float", "bool", "string", "bytes", "function",
-		"builtin_function_or_method", "range", "struct", "symmetric_values",
+		"builtin_function_or_method", "range", "symmetric_values",
 		"model_value", "Channel":
 		return
 
@@ -172,6 +173,13 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 			visitStarlarkValue(val, visitor, visited)
 		}
 
+	case "struct":
+		dict := starlark.StringDict{}
+		value.(*starlarkstruct.Struct).ToStringDict(dict)
+		for _, val := range dict {
+			visitStarlarkValue(val, visitor, visited)
+		}
+
 	case "record":
 		record := value.(*lib.Struct)
 		dict := starlark.StringDict{}
-- 
2.43.0


From bee55754928150e153fa90cdbcfcdd0d58a52da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 20/49] fix: the initial values of ephemeral fields belong to
 the state

Two states with equal fields but different initial values of the ephemeral
fields were merged, and initial values that refer to a role kept pointing to
a stale copy of it, so that calls through the field were lost after a crash.
---
 modelchecker/clone.go         |  6 +++++-
 modelchecker/processor.go     | 24 +++++++++++++++++++++++-
 modelchecker/state_visitor.go |  1 +
 modelchecker/thread.go        |  2 +-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 8e86367..c1616d8 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -261,7 +261,6 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Symmetric:   r.IsSymmetric(),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
-				InitValues:  r.InitValues,
 			}
 			// Before cloning the params and fields, as they may refer back to this role
 			refs[value] = newRole
@@ -273,8 +272,13 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
+			initValues, err := deepCloneStarlarkValueWithPermutations(r.InitValues, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
 			newRole.Params = params.(*lib.Struct)
 			newRole.Fields = fields.(*lib.Struct)
+			newRole.InitValues = initValues.(*lib.Struct)
 			return newRole, nil
 		}
 	default:
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 637aa57..46d51a8 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -640,6 +640,14 @@ func (p *Process) HashCode() string {
 			panic(err)
 		}
 		h.Write(bytes)
+		// A crash brings the initial values of the ephemeral fields back
+		if len(role.InitValues.AttrNames()) > 0 {
+			bytes, err = role.InitValues.MarshalJSON()
+			if err != nil {
+				panic(err)
+			}
+			h.Write(bytes)
+		}
 	}
 	// hash the heap variables as well
 	heapHash := p.Heap.HashCode()
@@ -3591,10 +3599,24 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
+	refs := node.roleIdentities()
 	for _, fieldName := range role.InitValues.AttrNames() {
 		attr, _ := role.InitValues.Attr(fieldName)
-		role.Fields.SetField(fieldName, attr)
+		// A copy, as the field may be modified in place later
+		value, err := deepCloneStarlarkValue(attr, refs)
+		PanicOnError(err)
+		role.Fields.SetField(fieldName, value)
+	}
+}
+
+// roleIdentities maps every role to itself, to copy values that refer to roles
+// without copying those.
+func (p *Process) roleIdentities() map[starlark.Value]starlark.Value {
+	roleRefs := make(map[starlark.Value]starlark.Value)
+	for _, role := range p.Roles {
+		roleRefs[role] = role
 	}
+	return roleRefs
 }
 
 func (p *Processor) shouldThreadCrash(node *Node) bool {
diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index ca9e002..629452b 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -196,6 +196,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 		}
 		visitStarlarkValue(role.Fields, visitor, visited)
 		visitStarlarkValue(role.Params, visitor, visited)
+		visitStarlarkValue(role.InitValues, visitor, visited)
 
 	case "RoleStub":
 		stub := value.(*lib.RoleStub)
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 7b52598..0cd3e0d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1385,7 +1385,7 @@ func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
 	fields := oldFrame.obj.Fields
-	fieldsCloned, err := deepCloneStarlarkValue(fields, nil)
+	fieldsCloned, err := deepCloneStarlarkValue(fields, t.Process.roleIdentities())
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 7524cb466659ba6474c8ec89bb09b447e7e91e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 21/49] fix: actions may be called crash, yield or init

Transitions of an action called crash were taken for crashes, and the nodes
within a step of an action with the name of a yield point for yield points,
so that states that have transitions were reported as deadlocks.
---
 modelchecker/invariants.go |  2 +-
 modelchecker/processor.go  | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d2edd73..c332818 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -740,7 +740,7 @@ func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
 			if debugLog {
 				fmt.Println("Outlink:", outLink.Name, outLink.Fairness, outLink.Labels, outLink.Node.Name, outLink.ChoiceFairness, linkName, fairness)
 			}
-			if !isCrashLinkName(linkName) {
+			if !outLink.IsCrashLink() {
 				prevNodeHasNonCrashLink = true
 			} else if outLink.Node == path[(i+1)%chainLen].Node && outLink == path[(i+1)%chainLen] {
 				nextNodeIsCrash = true
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 46d51a8..1beff49 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -326,6 +326,17 @@ func (p *Process) GetThreadsCount() int {
 	return len(p.GetThreads())
 }
 
+// stepName returns the name of the nodes within a step of an action. The names
+// of the yield points are reserved for those.
+func stepName(actionName string) string {
+	switch actionName {
+	case "yield", "crash", "init":
+		return "action " + actionName
+	default:
+		return actionName
+	}
+}
+
 func (p *Process) IsYieldNode() bool {
 	if p == nil {
 		return false
@@ -1007,7 +1018,8 @@ type Link struct {
 }
 
 func (l *Link) IsCrashLink() bool {
-	return isCrashLinkName(l.Name)
+	// An action may be called crash, too
+	return l.Type != "action" && isCrashLinkName(l.Name)
 }
 
 func isCrashLinkName(linkName string) bool {
@@ -1136,7 +1148,7 @@ func (n *Node) ForkForAction(process *Process, role *lib.Role, action *ast.Actio
 		forkDepth:   n.forkDepth + 1,
 		stacktrace:  captureStackTrace(),
 	}
-	forkNode.Process.Name = actionName
+	forkNode.Process.Name = stepName(actionName)
 	forkNode.Inbound = append(forkNode.Inbound, &Link{Node: n, Type: "action", Name: actionName})
 	forkNode.Process.Stats.Increment(actionName)
 	return forkNode
@@ -2328,7 +2340,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// A thread continuation or a message delivery starts with the name of
 		// the yield point it leaves. Until it reaches the next one, it is named
 		// after its action like any other step.
-		node.Name = node.currentThread().actionName()
+		node.Name = stepName(node.currentThread().actionName())
 	}
 	node.CachedHashCode = ""
 	forks, yield := node.currentThread().Execute()
-- 
2.43.0


From c34275ce69413f59bb5ebdfa1df2af5152a0f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 22/49] fix: weak fairness counts on a cycle that begins at a
 fair choice

---
 modelchecker/invariants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index c332818..1450af6 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -724,7 +724,8 @@ func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
 		if debugLog {
 			fmt.Println("isChoiceLink", isChoiceLink)
 		}
-		if firstYield == -1 {
+		if firstYield == -1 && !isChoiceLink {
+			// Actions, and so weak fairness, count from the first node that is not a choice.
 			firstYield = i
 		}
 		prevNodeHasNonCrashLink = false
-- 
2.43.0


From 938b202600d46da7e32d7876ade7347f8f7a1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 23/49] fix: the fairness of an in-flight action is named after
 its own position

---
 modelchecker/invariants.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 1450af6..51d3d85 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"maps"
 	"slices"
+	"strconv"
 	"strings"
 
 	"github.com/fizzbee-io/fizzbee/lib"
@@ -826,9 +827,14 @@ func fairnessLinkName(node *Node, outLink *Link) (string, ast.FairnessLevel, boo
 		}
 		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
 	} else if isThreadLink {
-		linkName = linkName + "|" + node.currentThread().currentPc()
-		if node.currentThread().currentFrame().obj != nil {
-			linkName = linkName + "|" + node.currentThread().currentFrame().obj.RefStringShort()
+		// Where the thread continues, not where the thread that ran last stands.
+		thread := node.currentThread()
+		if i, err := strconv.Atoi(strings.TrimPrefix(linkName, "thread-")); err == nil && i < len(node.Threads) {
+			thread = node.Threads[i]
+		}
+		linkName = linkName + "|" + thread.currentPc()
+		if thread.currentFrame().obj != nil {
+			linkName = linkName + "|" + thread.currentFrame().obj.RefStringShort()
 		}
 		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
 	}
-- 
2.43.0


From 24a99bc3faf4e787163160b5bcf897107131afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 24/49] fix: liveness finds a fair cycle whenever there is one

---
 modelchecker/invariants.go | 242 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 240 insertions(+), 2 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 51d3d85..a6afd1e 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -628,7 +628,14 @@ func AlwaysEventuallyFinal(nodes []*Node, root *Node, predicate Predicate) ([]*L
 			return true, cycleCallbackResult
 		}
 	}
-	return CycleFinderFinal(nodes, root, f)
+	failedPath, isLive := CycleFinderFinal(nodes, root, f)
+	if !isLive {
+		return failedPath, isLive
+	}
+	return findFairComponent(nodes, root, func(n *Node) bool {
+		relevant, value := predicate(n)
+		return !relevant || !value
+	}, nil, f)
 }
 
 func EventuallyAlwaysFinal(nodes []*Node, root *Node, predicate Predicate) ([]*Link, bool) {
@@ -668,7 +675,14 @@ func EventuallyAlwaysFinal(nodes []*Node, root *Node, predicate Predicate) ([]*L
 
 		//fmt.Println("Dead node NOT FOUND in the path")
 	}
-	return CycleFinderFinal(nodes, root, f)
+	failedPath, isLive := CycleFinderFinal(nodes, root, f)
+	if !isLive {
+		return failedPath, isLive
+	}
+	return findFairComponent(nodes, root, nil, func(n *Node) bool {
+		relevant, value := predicate(n)
+		return relevant && !value
+	}, f)
 }
 
 func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
@@ -995,6 +1009,230 @@ func cycleFinderHelper(node *Node, callback CycleCallback, visited map[*Node]boo
 	return nil, true
 }
 
+// findFairComponent looks for a fair cycle among the allowed nodes (nil: all of them) that has a
+// wanted node (nil: any). CycleFinderFinal closes only the cycles its depth first search comes
+// across; here the cycle is built from a whole strongly connected component. The callback decides
+// whether the cycle is a failure, as it does for the cycles of CycleFinderFinal.
+func findFairComponent(nodes []*Node, root *Node, allowed func(*Node) bool, wanted func(*Node) bool, callback CycleCallback) ([]*Link, bool) {
+	candidates := make([]*Node, 0, len(nodes))
+	for _, node := range nodes {
+		if allowed == nil || allowed(node) {
+			candidates = append(candidates, node)
+		}
+	}
+	pending := [][]*Node{candidates}
+	for len(pending) > 0 {
+		set := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		for _, component := range connectedComponents(set) {
+			if wanted != nil && !slices.ContainsFunc(component, wanted) {
+				continue
+			}
+			cycle, rest := fairCycle(component, wanted)
+			if len(rest) > 0 {
+				pending = append(pending, rest)
+			}
+			if cycle == nil {
+				continue
+			}
+			if isLive, _ := callback(cycle, 0); !isLive {
+				return append(ExtractFailurePath(cycle[0].Node, root), cycle[1:]...), false
+			}
+		}
+	}
+	return nil, true
+}
+
+// fairCycle builds a cycle through the component that takes every fair link that has to be taken.
+// If there is none because some fair link always leaves the component, the nodes that are left
+// without those where this link is enabled are returned.
+func fairCycle(component []*Node, wanted func(*Node) bool) ([]*Link, []*Node) {
+	inside := make(map[*Node]bool, len(component))
+	for _, node := range component {
+		inside[node] = true
+	}
+	strong, weak, taken := map[string]bool{}, map[string]int{}, map[string]bool{}
+	enabled := make(map[*Node]map[string]bool)
+	waypoints := make([]func(*Node, *Link) bool, 0)
+	actionNodes := 0
+	var start *Node
+	for _, node := range component {
+		isChoice := false
+		if node.Name != "init" && node.Name != "yield" && node.Name != "crash" {
+			if len(node.Outbound) == 0 || !strings.HasPrefix(node.Outbound[0].Name, "Any:") ||
+				node.Outbound[0].ChoiceFairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN ||
+				node.Outbound[0].ChoiceFairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR {
+				continue
+			}
+			isChoice = true
+		}
+		if !isChoice {
+			actionNodes++
+			if start == nil {
+				start = node
+			}
+		}
+		enabled[node] = map[string]bool{}
+		for _, link := range node.Outbound {
+			name, fairness, _ := fairnessLinkName(node, link)
+			if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
+				strong[name] = true
+			} else if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK && !isChoice {
+				if !enabled[node][name] {
+					weak[name]++
+				}
+			} else {
+				continue
+			}
+			enabled[node][name] = true
+			if inside[link.Node] && !link.IsCrashLink() {
+				taken[name] = true
+			}
+		}
+	}
+	rest := slices.DeleteFunc(slices.Clone(component), func(node *Node) bool {
+		for name := range enabled[node] {
+			if strong[name] && !taken[name] {
+				return true
+			}
+		}
+		return false
+	})
+	if len(rest) < len(component) {
+		return nil, rest
+	}
+	names := slices.Sorted(maps.Keys(taken))
+	for _, name := range names {
+		waypoints = append(waypoints, func(node *Node, link *Link) bool {
+			linkName, _, _ := fairnessLinkName(node, link)
+			return enabled[node] != nil && linkName == name
+		})
+	}
+	for name, count := range weak {
+		if !taken[name] && count == actionNodes {
+			return nil, nil
+		}
+	}
+	for _, name := range slices.Sorted(maps.Keys(weak)) {
+		if !taken[name] {
+			waypoints = append(waypoints, func(node *Node, link *Link) bool {
+				return (node.Name == "init" || node.Name == "yield" || node.Name == "crash") && !enabled[node][name]
+			})
+		}
+	}
+	if start == nil {
+		start = component[0]
+	}
+	if wanted != nil {
+		waypoints = append(waypoints, func(node *Node, link *Link) bool { return wanted(node) })
+	}
+	waypoints = append(waypoints, func(node *Node, link *Link) bool { return link.Node == start })
+	path := []*Link{InitNodeToLink(start)}
+	for _, reached := range waypoints {
+		path = append(path, shortestPath(path[len(path)-1].Node, inside, reached)...)
+	}
+	return path, nil
+}
+
+// shortestPath returns a path inside the component whose last link satisfies the condition.
+func shortestPath(from *Node, inside map[*Node]bool, last func(*Node, *Link) bool) []*Link {
+	type step struct {
+		node *Node
+		link *Link
+	}
+	reachedBy := map[*Node]*step{from: nil}
+	queue := []*Node{from}
+	for len(queue) > 0 {
+		node := queue[0]
+		queue = queue[1:]
+		for _, link := range node.Outbound {
+			if !inside[link.Node] || link.IsCrashLink() {
+				continue
+			}
+			if last(node, link) {
+				path := []*Link{link}
+				for s := reachedBy[node]; s != nil; s = reachedBy[s.node] {
+					path = append(path, s.link)
+				}
+				slices.Reverse(path)
+				return path
+			}
+			if _, seen := reachedBy[link.Node]; !seen {
+				reachedBy[link.Node] = &step{node, link}
+				queue = append(queue, link.Node)
+			}
+		}
+	}
+	return nil
+}
+
+// connectedComponents returns the strongly connected components of the nodes that have a cycle,
+// without crash links (Tarjan's algorithm).
+func connectedComponents(nodes []*Node) [][]*Node {
+	inside := make(map[*Node]bool, len(nodes))
+	for _, node := range nodes {
+		inside[node] = true
+	}
+	type frame struct {
+		node *Node
+		next int
+	}
+	data := make(map[*Node]*tarjanData)
+	components := make([][]*Node, 0)
+	stack := make([]*Node, 0)
+	for _, first := range nodes {
+		if data[first] != nil {
+			continue
+		}
+		calls := []*frame{{node: first}}
+		for len(calls) > 0 {
+			call := calls[len(calls)-1]
+			d := data[call.node]
+			if d == nil {
+				d = &tarjanData{index: len(data), lowLink: len(data), onStack: true}
+				data[call.node] = d
+				stack = append(stack, call.node)
+			}
+			if call.next < len(call.node.Outbound) {
+				link := call.node.Outbound[call.next]
+				call.next++
+				if !inside[link.Node] || link.IsCrashLink() {
+					continue
+				}
+				if to := data[link.Node]; to == nil {
+					calls = append(calls, &frame{node: link.Node})
+				} else if to.onStack {
+					d.lowLink = min(d.lowLink, to.lowLink)
+				}
+				continue
+			}
+			calls = calls[:len(calls)-1]
+			if len(calls) > 0 {
+				parent := data[calls[len(calls)-1].node]
+				parent.lowLink = min(parent.lowLink, d.lowLink)
+			}
+			if d.lowLink != d.index {
+				continue
+			}
+			from := len(stack) - 1
+			for stack[from] != call.node {
+				from--
+			}
+			component := slices.Clone(stack[from:])
+			stack = stack[:from]
+			for _, node := range component {
+				data[node].onStack = false
+			}
+			if len(component) > 1 || slices.ContainsFunc(call.node.Outbound, func(link *Link) bool {
+				return link.Node == call.node && !link.IsCrashLink()
+			}) {
+				components = append(components, component)
+			}
+		}
+	}
+	return components
+}
+
 func CycleFinderFinalBfs(node *Node, callback CycleCallback) ([]*Link, bool) {
 	visited := make(map[*Node]bool)
 	path := make([]*Link, 0)
-- 
2.43.0


From ab4a2df6ab95a4180a2ffe7c166fd8e313352d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 25/49] fix: refuse to keep no graph for liveness assertions of
 the invariants section

---
 main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 58b645c..aed7408 100644
--- a/main.go
+++ b/main.go
@@ -71,7 +71,12 @@ func main() {
 	// always-eventually / eventually-always / eventually invariants.
 	if experimentalNoGraph {
 		for _, inv := range f.Invariants {
-			for _, op := range inv.TemporalOperators {
+			ops := inv.TemporalOperators
+			if inv.Eventually {
+				// the invariants section declares them with flags
+				ops = append(slices.Clone(ops), "eventually")
+			}
+			for _, op := range ops {
 				if op == "eventually" || op == "always-eventually" || op == "eventually-always" {
 					fmt.Printf("--experimental_no_graph refused: spec declares liveness invariant '%s' (operator '%s'). The no-graph mode keeps no state graph, so cycle-based liveness checks cannot run.\n", inv.Name, op)
 					os.Exit(1)
-- 
2.43.0


From 402d797dc9d8c48647ba08c25355001822651640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 26/49] fix: transition assertion failures without a graph: no
 panic, name the assertion

---
 main.go                   | 2 ++
 modelchecker/processor.go | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index aed7408..b0a722c 100644
--- a/main.go
+++ b/main.go
@@ -769,6 +769,8 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			if failedNode != nil {
 				if failedNode.FailedInvariants != nil && len(failedNode.FailedInvariants) > 0 && len(failedNode.FailedInvariants[0]) > 0 {
 					fmt.Println("FAILED: Model checker failed. Invariant:", f.Invariants[failedNode.FailedInvariants[0][0]].Name)
+				} else if len(failedNode.Inbound) > 0 && len(failedNode.Inbound[0].FailedInvariants[0]) > 0 {
+					fmt.Println("FAILED: Model checker failed. Transition Invariant:", f.Invariants[failedNode.Inbound[0].FailedInvariants[0][0]].Name)
 				} else {
 					fmt.Println("FAILED: Model checker failed")
 				}
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1beff49..8d8a867 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2381,7 +2381,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
 				node.Name = "yield"
-				node.Attach()
+				if !p.experimentalNoGraph {
+					node.Attach()
+				}
 				p.intermediateStates.ClearAll()
 				return true, false
 			}
-- 
2.43.0


From c716a5ec77cc7ef7c81c7fc4965b1efe5f6274ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 27/49] fix: without a graph, a transition to a visited state
 is no deadlock

---
 modelchecker/processor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8d8a867..8d77079 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2420,7 +2420,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// that would otherwise re-promote a not-yet-enabled visited entry —
 		// in no_graph mode we don't keep the existing Node to compare.
 		if found {
-			// Pure dedup hit; the current node won't be retained either.
+			// Pure dedup hit; the current node won't be retained either. It
+			// is a live successor all the same.
+			p.dedupHitsInExpansion++
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
-- 
2.43.0


From 5a5c45a3157f3f2740d053bd3bbea4a4a50dbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 28/49] fix: a simulated run after a crash tries the choices of
 an action

---
 modelchecker/processor.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8d77079..7d0026c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2137,6 +2137,7 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 		invariantFailure := false
 		symmetryFound := false
 		prevLen := p.queue.Len()
+		start := node
 
 		// Handle visited map tracking based on configuration
 		shouldClearVisited := false
@@ -2155,8 +2156,8 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 		}
 		for {
 			inCrashPath := false
-			if len(node.Inbound) > 0 {
-				if node.Inbound[0].Node.Name == "crash" {
+			if len(start.Inbound) > 0 {
+				if start.Inbound[0].Node.Name == "crash" {
 					if liveness && node.actionDepth > int(randMaxActions) {
 						var nonCrashNode *Node
 						for p.queue.Len() != 0 {
@@ -2168,6 +2169,7 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 						}
 						if nonCrashNode != nil {
 							node = nonCrashNode
+							start = node
 							continue
 						} else {
 							break
@@ -2186,11 +2188,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				p.intermediateStates.ClearAll()
 				break
 			}
-			if !inCrashPath {
-				if p.intermediateStates.Len() == 0 {
-					break
-				}
+			if p.intermediateStates.Len() > 0 {
 				node, _ = p.intermediateStates.Remove()
+			} else if !inCrashPath {
+				break
 			} else {
 				hasAnotherCrashAction := false
 				var anotherCrashNode *Node
@@ -2207,6 +2208,7 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 					break
 				} else {
 					node = anotherCrashNode
+					start = node
 					prevLen = p.queue.Len()
 				}
 			}
-- 
2.43.0


From d637fb88843519cbb365b1f16d3b763891b601bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 29/49] fix: a simulated run is stuck only where no attempt
 leads on

---
 modelchecker/processor.go | 52 ++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 7d0026c..14df66c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2127,9 +2127,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			continue
 		}
 		if liveness && node.actionDepth > 0 && node.actionDepth > int(randMaxActions) {
-			if node.currentThread().Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR ||
-				node.currentThread().Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN {
-				livenessNode = node
+			// An action in flight can always continue
+			if !node.ThreadProgress && (node.currentThread().Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR ||
+				node.currentThread().Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN) {
+				livenessNode = node.Inbound[0].Node
 				continue
 			}
 		}
@@ -2239,9 +2240,17 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			p.queue.Clear(prevLen)
 		}
 
-		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && len(node.Inbound[0].Node.Outbound) == 0 {
+		// Nothing else is left to try from the yield point where this attempt started. It is
+		// stuck when no attempt led to another yield point, new or visited, unless an action
+		// was not tried because of max_actions.
+		from := p.Init
+		if len(start.Inbound) > 0 {
+			from = start.Inbound[0].Node
+		}
+		if node.Process != nil && !node.Process.Enabled && prevLen == 0 &&
+			from.actionDepth < int(p.config.Options.MaxActions) && !hasLiveStep(from) {
 			if !liveness && p.config.GetDeadlockDetection() {
-				failedNode = node.Inbound[0].Node
+				failedNode = from
 				break
 			} else if liveness && p.config.GetDeadlockDetection() {
 				// The if condition shouldn't have been required, but there is a small edge case not handled so far.
@@ -2252,18 +2261,19 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				// During liveness check since we are skipping non-fair nodes, we may end up with no next steps
 				// if this state matches all the required predicates, then it is a valid state. Otherwise, mark it as
 				// stutter state.
-				livenessNode = node
+				livenessNode = from
 			}
 
 		}
 	}
-	if liveness && livenessNode != nil {
+	// The run can stay where nothing but an action that is not fair leads on
+	if failedNode == nil && liveness && livenessNode != nil && !hasLiveStep(livenessNode) {
 		for i, file := range p.Files {
 			for j, invariant := range file.Invariants {
 				hasEventually := slices.Contains(invariant.TemporalOperators, "eventually") || invariant.Eventually
 				if hasEventually {
-					if !livenessNode.Inbound[0].Node.Process.Witness[i][j] {
-						failedNode = livenessNode.Inbound[0].Node
+					if !livenessNode.Process.Witness[i][j] {
+						failedNode = livenessNode
 						break
 					}
 
@@ -2275,6 +2285,30 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 	return p.Init, failedNode, err
 }
 
+// hasLiveStep tells whether some step of the node, other than a crash, reaches a yield point.
+func hasLiveStep(node *Node) bool {
+	seen := map[*Node]bool{node: true}
+	pending := []*Node{node}
+	for len(pending) > 0 {
+		node = pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		for _, link := range node.Outbound {
+			if link.IsCrashLink() {
+				continue
+			}
+			if link.Node.Name == "yield" || link.Node.Name == "crash" {
+				if link.Node.Enabled {
+					return true
+				}
+			} else if !seen[link.Node] {
+				seen[link.Node] = true
+				pending = append(pending, link.Node)
+			}
+		}
+	}
+	return false
+}
+
 func processPreInit(init *Node, stmts []*ast.Statement, preinitHookContent string) {
 	thread := init.NewThread()
 	thread.currentFrame().pc = fmt.Sprintf("Stmts[%d]", 0)
-- 
2.43.0


From 8c4b5be8271e310ccee12a09c9a8bb0aa37d11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 30/49] fix: simulation reports a deadlock where the limits of
 the actions leave nothing to start

---
 modelchecker/processor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 14df66c..e3b5715 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2238,6 +2238,12 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 		}
 		if p.simulation && node.Process != nil && node.Name == "yield" && node.Enabled {
 			p.queue.Clear(prevLen)
+			if p.queue.Len() == 0 && !liveness && p.config.GetDeadlockDetection() &&
+				node.actionDepth < int(p.config.Options.MaxActions) {
+				// Nothing can start here, because of the limits of the actions
+				failedNode = node
+				break
+			}
 		}
 
 		// Nothing else is left to try from the yield point where this attempt started. It is
-- 
2.43.0


From 22602e1163090b61657ef6c0ce922562e06ac910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 31/49] fix: a guided trace whose last step is disabled is
 incomplete, not passed

The progress was counted when a step was scheduled, before it was known whether the step is enabled.
---
 modelchecker/processor.go | 3 +++
 modelchecker/trace.go     | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index e3b5715..77f2883 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2392,6 +2392,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if node.ThreadProgress {
 		node.Enable()
 	}
+	if p.guidedTrace != nil {
+		p.guidedTrace.Reached(node.guidedTrace.currentIndex)
+	}
 	// Add the labels from the process to the inbound links
 	// This must be done even for duplicate nodes
 	// The labels for the outbound links are added when the node is merged/attached
diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 45bca93..60bbb6f 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -83,6 +83,14 @@ func (t *GuidedTrace) Advance() {
 	t.currentIndex++
 }
 
+// Reached records that a step executed that is the index-th link of the trace. A step that was
+// only scheduled may still turn out to be disabled.
+func (t *GuidedTrace) Reached(index int) {
+	if index > t.currentIndex {
+		t.currentIndex = index
+	}
+}
+
 // IsExhausted returns true if all trace links have been executed
 func (t *GuidedTrace) IsExhausted() bool {
 	return t.currentIndex >= len(t.LinkNames)
@@ -148,7 +156,6 @@ func (p *Processor) ShouldScheduleNode(node *Node) bool {
 	// Schedule only if link name matches
 	if linkName == expectedLinkName {
 		node.guidedTrace.Advance()
-		p.guidedTrace.Advance()
 		return true
 	}
 
-- 
2.43.0


From f7cf63795d23d21d011dd995c06c0259d4515baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 32/49] fix: an assertion violated on a guided trace is
 reported even if the trace was not executed in full

The warning about the incomplete trace replaced the report of the violation, and the checker exited with success.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index b0a722c..1cc110e 100644
--- a/main.go
+++ b/main.go
@@ -792,7 +792,7 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 		}
 
 		// Check if trace was fully executed
-		if guidedTrace != nil && !guidedTrace.IsExhausted() {
+		if guidedTrace != nil && failedNode == nil && !guidedTrace.IsExhausted() {
 			fmt.Printf("WARNING: Trace execution incomplete. Expected %d links, executed %d links.\n",
 				len(guidedTrace.LinkNames), guidedTrace.GetCurrentIndex())
 			fmt.Println("The trace may contain links that don't match the model or are unreachable.")
-- 
2.43.0


From a392466fefc8b374eea60a27c1ed53c520ea9abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 33/49] fix: symmetry reduction renames returned values and the
 roles that returned them

The returns stayed as they are when a state was hashed under a permutation, so states that are not
symmetric were merged and symmetric ones were not.
---
 modelchecker/processor.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 77f2883..b866221 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -429,11 +429,8 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 	// hashing) sees the same action-return data as the original. A fresh
 	// empty map here would silently strip per-action returns from the
 	// dedup key and collapse states that differ only in what an action
-	// returned.
-	returnsCopy := make(starlark.StringDict, len(p.Returns))
-	for k, v := range p.Returns {
-		returnsCopy[k] = v
-	}
+	// returned. The values are cloned, so that they take part in the permutations.
+	returnsCopy := CloneDict(p.Returns, refs, permutations, alt)
 	p2 := &Process{
 		Name:      p.Name,
 		Heap:      p.Heap.Clone(refs, permutations, alt),
@@ -2852,6 +2849,18 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 		}
 	}
 
+	// 4b. Update the keys of the returned values, "Name#OldID.Action" -> "Name#NewID.Action"
+	origReturns := p.Returns
+	p.Returns = make(starlark.StringDict, len(origReturns))
+	for key, val := range origReturns {
+		if ref, action, ok := strings.Cut(key, "."); ok {
+			if newRef, ok := replacements[ref]; ok {
+				key = newRef + "." + action
+			}
+		}
+		p.Returns[key] = val
+	}
+
 	// 5. Sort p.Roles to ensure canonical order
 	// This is necessary because p.Roles is a slice and its order affects the state representation.
 	// We sort by Name then Ref.
@@ -2872,6 +2881,7 @@ func (p *Process) symmetricHashWithoutClone(refs map[starlark.Value]starlark.Val
 
 	// 7. Restore Everything
 	copy(p.Roles, origRoles)
+	p.Returns = origReturns
 	for msg, oldReceiver := range origReceivers {
 		msg.receiver = oldReceiver
 	}
-- 
2.43.0


From 28d1cfa602cef50783fb4111e35867af30bf92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:56 +0000
Subject: [PATCH 34/49] fix: a role function delivered as channel message may
 return a value

---
 modelchecker/thread.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 0cd3e0d..ca5cc2d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -879,8 +879,12 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 					t.Process.Returns[convertToFunction(function).Name] = val
 				} else if _, ok := action.(*ast.Role); ok {
 					actionPath = pathComp[0] + "." + pathComp[1]
-					action1 = GetProtoFieldByPath(fileAst, actionPath).(*ast.Action)
-					t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					name := oldFrame.Name
+					if roleAction, ok := GetProtoFieldByPath(fileAst, actionPath).(*ast.Action); ok {
+						name = roleAction.Name
+					}
+					// Otherwise, a function that was called by a message from a channel
+					t.Process.Returns[oldFrame.obj.RefStringShort()+"."+name] = val
 					t.Process.Enable()
 				} else {
 					panic(fmt.Sprintf("Unknown protobuf type: %T, value %v at path %s", action, action, currentFrame.pc))
-- 
2.43.0


From b8018f09cd1f4a0a62b024b000df28eac9033d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:56 +0000
Subject: [PATCH 35/49] fix: taking a channel message is a step even if its
 handler executes no enabling statement

---
 modelchecker/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index b866221..4b96190 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1950,6 +1950,7 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 			newMsg := nn.ChannelMessages[i][j]
 			nn.ChannelMessages[i] = append(nn.ChannelMessages[i][:j], nn.ChannelMessages[i][j+1:]...)
 			thread := nn.Process.NewThread()
+			nn.ThreadProgress = true
 			thread.Stack.Pop()
 			thread.Stack.Push(newMsg.Frame())
 			starts = append(starts, &probeStart{node: nn, name: linkName, kind: "channel"})
@@ -3391,6 +3392,8 @@ func (p *Processor) scheduleChannelMessages(node *Node, process *Process) {
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
 			thread := newNode.Process.NewThread()
 			newNode.Inbound[0].ReqId = newNode.Process.Current
+			// Taking a message is progress, even when its handler executes no enabling statement
+			newNode.ThreadProgress = true
 			thread.Stack.Pop()
 
 			frame := newMsg.Frame()
-- 
2.43.0


From dd18e0114ce60fe95ed05a139c91940c2ff7930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:56 +0000
Subject: [PATCH 36/49] fix: channel messages are scheduled in a fixed order, a
 seed determines the run

---
 modelchecker/processor.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 4b96190..5400f73 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -671,12 +671,7 @@ func (p *Process) HashCode() string {
 		h.Write([]byte(fmt.Sprintf("%d:%s", k, channel.String())))
 	}
 
-	channelMsgKeys := make([]int, 0, len(p.ChannelMessages))
-	for k := range p.ChannelMessages {
-		channelMsgKeys = append(channelMsgKeys, k)
-	}
-	sort.Ints(channelMsgKeys)
-	for _, k := range channelMsgKeys {
+	for _, k := range p.sortedMessageChannels() {
 		messages := p.ChannelMessages[k]
 		// TODO: Sort the messages, for unordered channels
 		for _, message := range messages {
@@ -687,6 +682,16 @@ func (p *Process) HashCode() string {
 	return p.CachedHashCode
 }
 
+// sortedMessageChannels returns the ids of the channels that messages were sent to, in a fixed order.
+func (p *Process) sortedMessageChannels() []int {
+	channels := make([]int, 0, len(p.ChannelMessages))
+	for k := range p.ChannelMessages {
+		channels = append(channels, k)
+	}
+	sort.Ints(channels)
+	return channels
+}
+
 func (p *Process) currentThread() *Thread {
 	return p.Threads[p.Current]
 }
@@ -1943,7 +1948,8 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 	}
 
 	// 2. Pending channel message deliveries (mirrors scheduleChannelMessages).
-	for i, msgs := range process.ChannelMessages {
+	for _, i := range process.sortedMessageChannels() {
+		msgs := process.ChannelMessages[i]
 		for j := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			nn := base.ForkForAlternatePaths(process.Fork(), linkName)
@@ -3384,7 +3390,8 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 }
 
 func (p *Processor) scheduleChannelMessages(node *Node, process *Process) {
-	for i, msgs := range process.ChannelMessages {
+	for _, i := range process.sortedMessageChannels() {
+		msgs := process.ChannelMessages[i]
 		for j, _ := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
-- 
2.43.0


From 2831935f8ff9b267ec1ec29405cb511ce07c90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:56 +0000
Subject: [PATCH 37/49] fix: channels are numbered from 0 in every simulated
 run

---
 modelchecker/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5400f73..3984809 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1420,6 +1420,7 @@ func NewProcessorWithVisitedTracking(files []*ast.File, options *ast.StateSpaceO
 		intermediateStates = lib.NewQueue[*Node]()
 	}
 	lib.ClearRoleRefs()
+	lib.ClearChannelRefs()
 	durabilitySpec := &DurabilitySpec{RoleDurabilitySpec: make(map[string]RoleDurabilitySpec)}
 	mc := NewModelChecker("example")
 	for _, file := range files {
-- 
2.43.0


From cc4e36492779d01f58802ce8b37070d93dbc99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 38/49] fix: the alternatives of a parallel block go on after
 an instance crashes

---
 modelchecker/processor.go | 65 ++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 3984809..4e6f7fa 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -706,6 +706,9 @@ func (p *Process) removeThread(threadIndex int) {
 		return
 	}
 	p.Threads[threadIndex] = nil
+	if p.Current >= 0 && p.Current < len(p.Threads) && p.Threads[p.Current] != nil {
+		return
+	}
 	for i, thread := range p.Threads {
 		if thread != nil {
 			p.Current = i
@@ -954,10 +957,11 @@ type Node struct {
 
 	DuplicateOf *Node
 
-	// yieldForks: in the experimental processed-queue mode, when a node
-	// reaches yield, its forks list (from thread.Execute) is saved here so
-	// startProcessedQueue can replay YieldNode/YieldFork later when the
-	// yield-point is popped and expanded. Nil for OLD-mode nodes.
+	// yieldForks: when a node reaches yield, its forks list (from
+	// thread.Execute) is saved here. In the experimental processed-queue
+	// mode, startProcessedQueue replays YieldNode/YieldFork later, when the
+	// yield-point is popped and expanded; when roles can crash, the same
+	// forks go on after the crash of a role.
 	yieldForks []*Process `json:"-"`
 
 	// pathTail: in experimental no-graph mode, a lightweight linked-list
@@ -1345,8 +1349,10 @@ func (p *Processor) publishYieldPoint(yp *Node, forks []*Process) {
 	// Only called for NEW (not dedup-skipped) yield-points — processNode
 	// short-circuits before reaching the publish step on dedup hits.
 	p.uniqueYieldCount++
-	if p.experimentalProcessedQueue {
+	if p.experimentalProcessedQueue || p.config.Options.GetCrashOnYield() {
 		yp.yieldForks = forks
+	}
+	if p.experimentalProcessedQueue {
 		p.expandedYieldPoints = append(p.expandedYieldPoints, yp)
 		return
 	}
@@ -1722,8 +1728,10 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 		} else {
 			p.YieldNode(yp)
 		}
-		// yieldForks no longer needed; release for GC.
-		yp.yieldForks = nil
+		if !p.config.Options.GetCrashOnYield() {
+			// yieldForks no longer needed; release for GC.
+			yp.yieldForks = nil
+		}
 
 		// Snapshot signals before expansion so we can tell after
 		// drainAndFlush whether yp produced any live successors:
@@ -2649,14 +2657,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return nil, nil
 	}
-	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
-			continue
-		}
-		crashNode.removeThread(i)
-	}
-	// Reset ephemeral variables
-	p.ResetEphemeralVariables(crashNode, role)
+	p.loseRoleState(crashFork, role)
 	crashNode.Enable()
 
 	failedInvariants := CheckTransitionInvariants(crashFork)
@@ -2685,13 +2686,33 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 
-	// Crash variants have no forks (single deterministic crash continuation),
-	// so pass nil. In NEW mode the crash yield-point is queued like any
-	// other; in OLD mode YieldNode runs immediately.
-	p.publishYieldPoint(crashNode, nil)
+	// If the next step of the thread that yielded is not decided yet and the
+	// thread survives, each of the alternatives goes on after the crash.
+	// In NEW mode the crash yield-point is queued like any other; in OLD mode
+	// YieldNode/YieldFork runs immediately.
+	var forks []*Process
+	if current := node.Current; current < len(crashFork.Threads) && crashFork.Threads[current] != nil {
+		for _, fork := range node.yieldForks {
+			crashed := fork.Fork()
+			p.loseRoleState(crashed, role)
+			forks = append(forks, crashed)
+		}
+	}
+	p.publishYieldPoint(crashNode, forks)
 	return crashNode, nil
 }
 
+// loseRoleState removes the threads that run in the role and resets its ephemeral variables.
+func (p *Processor) loseRoleState(process *Process, role *lib.Role) {
+	for i, thread := range process.Threads {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
+			continue
+		}
+		process.removeThread(i)
+	}
+	p.ResetEphemeralVariables(process, role)
+}
+
 func (p *Processor) crashThread(node *Node) {
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
@@ -3670,9 +3691,9 @@ func (p *Processor) checkAlwaysEventually(fileIndex, invariantIndex int, node *N
 	return currentNode, false
 }
 
-func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
+func (p *Processor) ResetEphemeralVariables(process *Process, oldRole *lib.Role) {
 	var role *lib.Role
-	for _, r := range node.Roles {
+	for _, r := range process.Roles {
 		if r.RefStringShort() == oldRole.RefStringShort() {
 			role = r
 			break
@@ -3681,7 +3702,7 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
-	refs := node.roleIdentities()
+	refs := process.roleIdentities()
 	for _, fieldName := range role.InitValues.AttrNames() {
 		attr, _ := role.InitValues.Attr(fieldName)
 		// A copy, as the field may be modified in place later
-- 
2.43.0


From b24dbff81a47177abb35ea0fc5e51d17c7a91c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 39/49] fix: the alternatives of a choice within a step are
 steps from every state the choice is reached from

---
 main.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 1cc110e..3971439 100644
--- a/main.go
+++ b/main.go
@@ -504,6 +504,9 @@ func ParseFunctionRef(input string) (string, string, error) {
 
 func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelchecker.Node, fileRef string, fnRef string) {
 	visited := make(map[*modelchecker.Node]bool)
+	// A choice point within a step can be reached from several yield points,
+	// its alternatives are steps from each of them.
+	visitedFrom := make(map[modelchecker.Transition]bool)
 
 	var dfs func(from *modelchecker.Node, current *modelchecker.Node)
 	dfs = func(from *modelchecker.Node, current *modelchecker.Node) {
@@ -511,15 +514,20 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 		if from != nil && current.IsYieldNode() {
 			addToJoinHashes(joinHashes, i, from, current, fnRef)
 		}
-		if visited[current] {
-			return
-		}
-		visited[current] = true
-
 		if current.IsYieldNode() {
+			if visited[current] {
+				return
+			}
+			visited[current] = true
 			// Add stuttering (to, to) link for new Nodes discovered
 			addToJoinHashes(joinHashes, i, current, current, fnRef)
 			from = current // update 'from' for child traversal
+		} else {
+			step := lib.NewPair(from, current)
+			if visitedFrom[step] {
+				return
+			}
+			visitedFrom[step] = true
 		}
 
 		for _, child := range current.Outbound {
-- 
2.43.0


From e76dfb063601292f89952b3c4fd079ac0b2643b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 40/49] fix: a step that breaks the refinement is reported also
 when it is one of several alternatives

---
 modelchecker/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 4e6f7fa..6d4e0c5 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2449,6 +2449,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		if len(node.Process.Files[0].Refinements) > 0 {
 			result := CheckRefinement(node.Process, p.Files[0].Refinements[0], p.hashes)
 			if !result {
+				node.Name = "yield"
+				if !p.experimentalNoGraph {
+					node.Attach()
+				}
+				p.intermediateStates.ClearAll()
 				return true, false
 			}
 		}
-- 
2.43.0


From 7a37d3c09ac6be93cf060a710aab7c9e4acfd09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 41/49] fix: crashes of an instance are checked against the
 refined model

---
 modelchecker/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 6d4e0c5..694d415 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2673,6 +2673,9 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 			return crashNode, crashNode
 		}
 	}
+	if len(p.Files[0].Refinements) > 0 && !CheckRefinement(crashFork, p.Files[0].Refinements[0], p.hashes) {
+		return crashNode, crashNode
+	}
 	failedInvariants = CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
 	if len(failedInvariants[0]) > 0 {
 		crashNode.Process.FailedInvariants = failedInvariants
-- 
2.43.0


From 703c472fdef3ec790fd593b1b6be5c6f35d36eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 42/49] fix: reporting a composed transition that violates an
 assertion no longer panics

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 3971439..b4bd317 100644
--- a/main.go
+++ b/main.go
@@ -1259,11 +1259,11 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 
 	// Virtual merge node for FROM
 	mergedFromID := "\"composite_before\""
-	addCompositeNode(builder, mergedFromID, lastFromNodeIDs)
+	addCompositeNode(&builder, mergedFromID, lastFromNodeIDs)
 
 	// Virtual merge node for TO
 	mergedToID := "\"composite_after\""
-	addCompositeNode(builder, mergedToID, lastToNodeIDs)
+	addCompositeNode(&builder, mergedToID, lastToNodeIDs)
 	builder.WriteString(fmt.Sprintf("  %s -> %s [style=dashed, color=red];\n", mergedFromID, mergedToID))
 	builder.WriteString("}\n")
 	dotStr := builder.String()
@@ -1273,7 +1273,7 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 	}
 }
 
-func addCompositeNode(builder strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
+func addCompositeNode(builder *strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
 	builder.WriteString(fmt.Sprintf("  %s [label=\"Composite before\", shape=doubleoctagon, style=filled, fillcolor=orange];\n", mergedFromID))
 	for _, id := range lastFromNodeIDs {
 		builder.WriteString(fmt.Sprintf("  %s -> %s [arrowhead=none, style=dashed, color=gray];\n", id, mergedFromID))
-- 
2.43.0


From d61d0471ea5341fd4a02bbadb4625c0e609cf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 43/49] fix: composed steps that change only fields of
 instances are checked

---
 main.go                    | 2 +-
 modelchecker/invariants.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index b4bd317..29edd9d 100644
--- a/main.go
+++ b/main.go
@@ -395,7 +395,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			// Check if all transitions are stuttering
 			allStuttering := true
 			for _, t := range ts {
-				if t.First.Heap.HashCode() != t.Second.Heap.HashCode() {
+				if !modelchecker.SameVariables(t.First.Process, t.Second.Process) {
 					allStuttering = false
 					break
 				}
diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index a6afd1e..a339998 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -36,9 +36,9 @@ func (p *Process) previousYield() *Process {
 	return before
 }
 
-// sameVariables tells whether a step changed neither a state variable nor a
+// SameVariables tells whether a step changed neither a state variable nor a
 // field of a role.
-func sameVariables(before, after *Process) bool {
+func SameVariables(before, after *Process) bool {
 	if before.Heap.HashCode() != after.Heap.HashCode() || len(before.Roles) != len(after.Roles) {
 		return false
 	}
@@ -59,7 +59,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 	if before == nil {
 		return true
 	}
-	if sameVariables(before, process) {
+	if SameVariables(before, process) {
 		return true
 	}
 	fnName := ""
@@ -83,7 +83,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 
 func CheckTransitionInvariants(process *Process) map[int][]int {
 	before := process.previousYield()
-	if before == nil || sameVariables(before, process) {
+	if before == nil || SameVariables(before, process) {
 		return nil
 	}
 	results := make(map[int][]int)
-- 
2.43.0


From 1156da2aca8e0eaa16119c1e0c3efa751044ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 44/49] fix: a step that not every spec of a composition can
 take is no composed step

---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 29edd9d..5cc3811 100644
--- a/main.go
+++ b/main.go
@@ -386,9 +386,13 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			break
 		}
 	}
+	if len(f.Composition.GetSpecs()) < 2 {
+		return errors.New("need at least 2 specs to compose")
+	}
 	for key, sets := range joinHashes {
-		if len(sets) < 2 {
-			return fmt.Errorf("need at least 2 transition sets for key %s", key)
+		if len(sets) < len(f.Composition.GetSpecs()) {
+			// Some specs have no such transition, so there is none that all of them can take together.
+			continue
 		}
 
 		failedNode, failedTransition := cartesianProduct(sets, func(ts []lib.Pair[*modelchecker.Node, *modelchecker.Node]) (*ComposedNode, *ComposedTransition) {
-- 
2.43.0


From 702aef632da40fbd9a5eb11ba49f6a886642cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:45 +0000
Subject: [PATCH 45/49] fix: equal values of a view are the same whatever order
 their elements were added in

---
 main.go                    |  4 ++--
 modelchecker/invariants.go | 36 ++++++++++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 5cc3811..b35fac3 100644
--- a/main.go
+++ b/main.go
@@ -546,8 +546,8 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 
 func addToJoinHashes(joinHashes modelchecker.JoinHashes, i int, from, to *modelchecker.Node, fnName string) {
 	//fmt.Println("Adding to join hashes:", from.Heap.String(), "->", to.Heap.String(), "for function", fnName)
-	fromState := modelchecker.ExecFunction(from.Process.CloneForAssert(nil, 0), fnName).String()
-	toState := modelchecker.ExecFunction(to.Process.CloneForAssert(nil, 0), fnName).String()
+	fromState := modelchecker.CanonicalString(modelchecker.ExecFunction(from.Process.CloneForAssert(nil, 0), fnName))
+	toState := modelchecker.CanonicalString(modelchecker.ExecFunction(to.Process.CloneForAssert(nil, 0), fnName))
 
 	key := modelchecker.HashKey(fromState + "," + toState)
 
diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index a339998..eda7630 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"maps"
 	"slices"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -69,8 +70,8 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 			break
 		}
 	}
-	fromState := ExecFunction(before.CloneForAssert(nil, 0), fnName).String()
-	toState := ExecFunction(process.CloneForAssert(nil, 0), fnName).String()
+	fromState := CanonicalString(ExecFunction(before.CloneForAssert(nil, 0), fnName))
+	toState := CanonicalString(ExecFunction(process.CloneForAssert(nil, 0), fnName))
 
 	key := HashKey(fromState + "," + toState)
 
@@ -81,6 +82,37 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 	return true
 }
 
+// CanonicalString does not depend on how a value was constructed: the
+// elements of sets, bags and maps are in a fixed order.
+func CanonicalString(value starlark.Value) string {
+	var parts []string
+	switch value.Type() {
+	case "list", "tuple", "set", "genericset", "bag":
+		iter := value.(starlark.Iterable).Iterate()
+		defer iter.Done()
+		var x starlark.Value
+		for iter.Next(&x) {
+			parts = append(parts, CanonicalString(x))
+		}
+	case "dict", "genericmap":
+		for _, item := range value.(starlark.IterableMapping).Items() {
+			parts = append(parts, CanonicalString(item[0])+":"+CanonicalString(item[1]))
+		}
+	case "record", "struct":
+		for _, name := range value.(starlark.HasAttrs).AttrNames() {
+			attr, err := value.(starlark.HasAttrs).Attr(name)
+			PanicOnError(err)
+			parts = append(parts, name+"="+CanonicalString(attr))
+		}
+	default:
+		return value.String()
+	}
+	if value.Type() != "list" && value.Type() != "tuple" {
+		sort.Strings(parts)
+	}
+	return value.Type() + "(" + strings.Join(parts, ",") + ")"
+}
+
 func CheckTransitionInvariants(process *Process) map[int][]int {
 	before := process.previousYield()
 	if before == nil || SameVariables(before, process) {
-- 
2.43.0


From 046a0088a4de9bffd46908aa3eea908ea0b68644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:11 +0000
Subject: [PATCH 46/49] fix: transition assertions of composed steps that
 change only fields of instances are evaluated

---
 main.go                    | 2 +-
 modelchecker/invariants.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index b35fac3..35cda8d 100644
--- a/main.go
+++ b/main.go
@@ -438,7 +438,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 				processFrom.Enable()
 				processFrom.Heap = modelchecker.NewComposedHeap(composedFrom)
 				processTo.Parent = processFrom
-				failedTransitionInvariants := modelchecker.CheckTransitionInvariants(processTo)
+				failedTransitionInvariants := modelchecker.CheckTransitionInvariantsFrom(processFrom, processTo)
 				if len(failedTransitionInvariants) > 0 && len(failedTransitionInvariants[0]) > 0 {
 					//processTo.FailedInvariants = failedInvariants
 					fmt.Println("Composed transition failed invariants:", failedTransitionInvariants)
diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index eda7630..230b6fa 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -118,6 +118,11 @@ func CheckTransitionInvariants(process *Process) map[int][]int {
 	if before == nil || SameVariables(before, process) {
 		return nil
 	}
+	return CheckTransitionInvariantsFrom(before, process)
+}
+
+// CheckTransitionInvariantsFrom checks the step from before to process, whatever it changes.
+func CheckTransitionInvariantsFrom(before, process *Process) map[int][]int {
 	results := make(map[int][]int)
 	for i, file := range process.Files {
 		results[i] = make([]int, 0)
-- 
2.43.0


From baa3a50252af9d5c0e3711b4a42acab38c04b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:02 +0000
Subject: [PATCH 47/49] fix: next_states() contains every alternative of a
 choice after an enabling statement

---
 modelchecker/processor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 694d415..26eb83d 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2062,7 +2062,11 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 			seenIntermediate[h] = true
 			if !yield {
 				for _, fork := range forks {
-					stack = append(stack, n.ForkForAlternatePaths(fork, fork.Name))
+					next := n.ForkForAlternatePaths(fork, fork.Name)
+					if n.Enabled {
+						next.Enable()
+					}
+					stack = append(stack, next)
 				}
 				continue
 			}
-- 
2.43.0


From 364822990afaf8f9d9cc796e2adb1ec03baf6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:11 +0000
Subject: [PATCH 48/49] fix: assertions that are false after the crash of a
 thread are reported

---
 modelchecker/processor.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 26eb83d..5f00a77 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1185,6 +1185,7 @@ type Processor struct {
 	dirPath            string
 	intermediateStates lib.LinearCollection[*Node]
 	reachedCrashNode   *Node // set by processNode: the state it reached is a crash node
+	failedCrashNode    *Node // set by processNode: an assertion is false after the crash of the thread
 	simulation         bool
 	random             rand.Rand
 	Seed               int64
@@ -1612,6 +1613,15 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 		if p.guidedTrace != nil {
 			p.visited = make(map[string]*Node)
 		}
+		if p.failedCrashNode != nil {
+			if crashFailedNode == nil {
+				crashFailedNode = p.failedCrashNode
+			}
+			p.failedCrashNode = nil
+			if !p.config.ContinueOnInvariantFailures {
+				break
+			}
+		}
 		// A state so far known only as the result of a crash is reached by
 		// running: it is now an ordinary yield point, where roles can crash.
 		crashPoint := finalNode
@@ -2198,6 +2208,9 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				}
 			}
 			invariantFailure, symmetryFound = p.processNode(node)
+			if p.failedCrashNode != nil {
+				node, p.failedCrashNode, invariantFailure = p.failedCrashNode, nil, true
+			}
 			if invariantFailure {
 				break
 			}
@@ -2733,9 +2746,15 @@ func (p *Processor) crashThread(node *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return
 	}
-	// TODO: We could just copy the failed invariants from the parent
-	// instead of checking again
-	CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	// The variables are those of the parent, but what can happen next is not.
+	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	if len(failedInvariants[0]) > 0 {
+		crashFork.FailedInvariants = failedInvariants
+		if !p.config.ContinuePathOnInvariantFailures {
+			p.failedCrashNode = crashNode
+			return
+		}
+	}
 	if node.Process.Enabled {
 		crashNode.Enable()
 	}
-- 
2.43.0


From e2bb33d1084e0423d437f6f757ee0c11b8ce5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:11 +0000
Subject: [PATCH 49/49] fix: next_states() contains the continuations of a
 parallel block

---
 modelchecker/processor.go | 61 +++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5f00a77..fe0adcd 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1492,7 +1492,7 @@ func (p *Processor) InitializeNode() (*Node, *Node, error) {
 		}
 		process.Enable()
 		process.Heap.state = globals
-		failed := CheckInvariantsWithProber(process, p.makeProber(process))
+		failed := CheckInvariantsWithProber(process, p.makeProber(process, nil))
 		if len(failed[0]) > 0 {
 			p.Init.Process.FailedInvariants = failed
 			if !p.config.ContinuePathOnInvariantFailures {
@@ -1881,12 +1881,12 @@ func (p *Processor) printPeakSummary() {
 // makeProber wraps probeNextStates in a lazily-evaluated, memoized closure.
 // The probe runs only if some assertion actually calls next_states(), and at
 // most once per checked state even when multiple assertions call it.
-func (p *Processor) makeProber(process *Process) NextStatesProber {
+func (p *Processor) makeProber(process *Process, forks []*Process) NextStatesProber {
 	var cache []*NextTransition
 	done := false
 	return func() []*NextTransition {
 		if !done {
-			cache = p.probeNextStates(process)
+			cache = p.probeNextStates(process, forks)
 			done = true
 		}
 		return cache
@@ -1937,7 +1937,7 @@ type NextTransition struct {
 //
 // Crash variants are intentionally excluded: a crash is not a witness that
 // an action is possible.
-func (p *Processor) probeNextStates(process *Process) []*NextTransition {
+func (p *Processor) probeNextStates(process *Process, forks []*Process) []*NextTransition {
 	snapshot := lib.SnapshotGlobalRefs()
 	defer lib.RestoreGlobalRefs(snapshot)
 
@@ -1955,15 +1955,26 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 	starts := make([]*probeStart, 0)
 
 	// 1. Continuations of in-flight threads (non-atomic actions mid-way).
-	for i, thread := range process.Threads {
-		if thread == nil || thread.currentPc() == "" {
-			continue
+	// The next step of the thread that yielded is any of the alternatives.
+	for i := range process.Threads {
+		alternatives := []*Process{process}
+		if i == process.Current && len(forks) > 0 {
+			alternatives = forks
+		}
+		for _, alternative := range alternatives {
+			if i >= len(alternative.Threads) {
+				continue
+			}
+			thread := alternative.Threads[i]
+			if thread == nil || thread.currentPc() == "" {
+				continue
+			}
+			name := fmt.Sprintf("thread-%d", i)
+			nn := base.ForkForAlternatePaths(thread.Process.Fork(), name)
+			nn.Current = i
+			nn.ThreadProgress = true
+			starts = append(starts, &probeStart{node: nn, name: name, kind: "thread"})
 		}
-		name := fmt.Sprintf("thread-%d", i)
-		nn := base.ForkForAlternatePaths(thread.Process.Fork(), name)
-		nn.Current = i
-		nn.ThreadProgress = true
-		starts = append(starts, &probeStart{node: nn, name: name, kind: "thread"})
 	}
 
 	// 2. Pending channel message deliveries (mirrors scheduleChannelMessages).
@@ -2535,7 +2546,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	}
 	var failedInvariants map[int][]int
 	if yield {
-		failedInvariants = CheckInvariantsWithProber(node.Process, p.makeProber(node.Process))
+		failedInvariants = CheckInvariantsWithProber(node.Process, p.makeProber(node.Process, forks))
 	}
 	if len(failedInvariants[0]) > 0 {
 		//panic(fmt.Sprintf("Invariant failed: %v", failedInvariants))
@@ -2693,7 +2704,17 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if len(p.Files[0].Refinements) > 0 && !CheckRefinement(crashFork, p.Files[0].Refinements[0], p.hashes) {
 		return crashNode, crashNode
 	}
-	failedInvariants = CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	// If the next step of the thread that yielded is not decided yet and the
+	// thread survives, each of the alternatives goes on after the crash.
+	var forks []*Process
+	if current := node.Current; current < len(crashFork.Threads) && crashFork.Threads[current] != nil {
+		for _, fork := range node.yieldForks {
+			crashed := fork.Fork()
+			p.loseRoleState(crashed, role)
+			forks = append(forks, crashed)
+		}
+	}
+	failedInvariants = CheckInvariantsWithProber(crashFork, p.makeProber(crashFork, forks))
 	if len(failedInvariants[0]) > 0 {
 		crashNode.Process.FailedInvariants = failedInvariants
 		if !p.config.ContinuePathOnInvariantFailures {
@@ -2711,18 +2732,8 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 
-	// If the next step of the thread that yielded is not decided yet and the
-	// thread survives, each of the alternatives goes on after the crash.
 	// In NEW mode the crash yield-point is queued like any other; in OLD mode
 	// YieldNode/YieldFork runs immediately.
-	var forks []*Process
-	if current := node.Current; current < len(crashFork.Threads) && crashFork.Threads[current] != nil {
-		for _, fork := range node.yieldForks {
-			crashed := fork.Fork()
-			p.loseRoleState(crashed, role)
-			forks = append(forks, crashed)
-		}
-	}
 	p.publishYieldPoint(crashNode, forks)
 	return crashNode, nil
 }
@@ -2747,7 +2758,7 @@ func (p *Processor) crashThread(node *Node) {
 		return
 	}
 	// The variables are those of the parent, but what can happen next is not.
-	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork, nil))
 	if len(failedInvariants[0]) > 0 {
 		crashFork.FailedInvariants = failedInvariants
 		if !p.config.ContinuePathOnInvariantFailures {
-- 
2.43.0

