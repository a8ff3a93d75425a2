From 07469f04c4868279e626ab1bb8640070b1017fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 01/38] fix: wait for a task another parallel branch is running
 instead of reporting a cycle

A task reached from two concurrently running parallel items was reported as a
circular dependency while it was still in flight. Only a task that is its own
ancestor is a cycle; any other caller waits for the running task and shares its
outcome (including a failure).
---
 internal/runner/parallel.go | 55 +++++++++++++++++++++++++++++--------
 internal/runner/runner.go   | 30 ++++++++++++++------
 2 files changed, 66 insertions(+), 19 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..2a44382 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -31,31 +32,49 @@ func pathToKey(path []int) string {
 	return strings.Join(parts, ".")
 }
 
+type taskState struct {
+	status   status
+	finished chan struct{}
+	err      error
+}
+
 type syncState struct {
 	mu    sync.Mutex
-	state map[string]status
+	state map[string]*taskState
+}
+
+func newSyncState() *syncState {
+	return &syncState{state: make(map[string]*taskState)}
 }
 
 func (s *syncState) get(name string) status {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	return s.state[name]
+	if ts, ok := s.state[name]; ok {
+		return ts.status
+	}
+	return 0
 }
 
-func (s *syncState) set(name string, st status) {
+// claim reports the status name had before the call; the first caller (status 0)
+// becomes responsible for running the task and calling finish.
+func (s *syncState) claim(name string) (*taskState, status) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	s.state[name] = st
+	if ts, ok := s.state[name]; ok {
+		return ts, ts.status
+	}
+	ts := &taskState{status: running, finished: make(chan struct{})}
+	s.state[name] = ts
+	return ts, 0
 }
 
-func (s *syncState) claim(name string) status {
+func (s *syncState) finish(ts *taskState, err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	current := s.state[name]
-	if current == 0 {
-		s.state[name] = running
-	}
-	return current
+	ts.status = done
+	ts.err = err
+	close(ts.finished)
 }
 
 func (s *syncState) snapshot() map[string]status {
@@ -63,11 +82,25 @@ func (s *syncState) snapshot() map[string]status {
 	defer s.mu.Unlock()
 	cp := make(map[string]status, len(s.state))
 	for k, v := range s.state {
-		cp[k] = v
+		cp[k] = v.status
 	}
 	return cp
 }
 
+type ancestorsKey struct{}
+
+func withAncestor(ctx context.Context, name string) context.Context {
+	parents, _ := ctx.Value(ancestorsKey{}).([]string)
+	chain := make([]string, len(parents), len(parents)+1)
+	copy(chain, parents)
+	return context.WithValue(ctx, ancestorsKey{}, append(chain, name))
+}
+
+func isAncestor(ctx context.Context, name string) bool {
+	parents, _ := ctx.Value(ancestorsKey{}).([]string)
+	return slices.Contains(parents, name)
+}
+
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
 	labels := make([]string, len(pr.Items))
 	maxLabelLen := 0
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..7e4f774 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -101,7 +101,7 @@ func (r *Runner) RunWithTasks(ctx context.Context, taskName string, tasks babfil
 		}
 	}
 
-	state := &syncState{state: make(map[string]status)}
+	state := newSyncState()
 	return r.runTask(ctx, taskName, tasks, state, true, nil, nil, nil, nil, false, nil)
 }
 
@@ -133,16 +133,32 @@ func firstNonNil(vals ...*bool) *bool {
 }
 
 func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
-	switch state.claim(name) {
+	ts, prev := state.claim(name)
+	switch prev {
 	case done:
-		return nil
+		return ts.err
 	case running:
-		return &errs.CircularDepError{
-			Type:  "dependency",
-			Chain: buildChainSlice(name, tasks, state.snapshot()),
+		if isAncestor(ctx, name) {
+			return &errs.CircularDepError{
+				Type:  "dependency",
+				Chain: buildChainSlice(name, tasks, state.snapshot()),
+			}
+		}
+		// Another parallel branch is running this task: wait for its outcome.
+		select {
+		case <-ts.finished:
+			return ts.err
+		case <-ctx.Done():
+			return fmt.Errorf("cancelled: %w", ctx.Err())
 		}
 	}
 
+	err := r.runClaimedTask(withAncestor(ctx, name), name, tasks, state, isMain, overrideSilent, overrideOutput, stdout, stderr, noColor, pctx)
+	state.finish(ts, err)
+	return err
+}
+
+func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	task, ok := tasks[name]
 	if !ok {
 		available := tasks.Names()
@@ -163,7 +179,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 		if !result.ShouldRun {
 			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			state.set(name, done)
 			return nil
 		}
 	}
@@ -197,7 +212,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	state.set(name, done)
 	return nil
 }
 
-- 
2.43.0


From d02fcbb0538397e546b3b12d443bc24ccc79e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 02/38] fix: treat a comparison whose left side is empty or
 multi-line as a comparison

"${{ x }} == 'prod'" with an empty (or multi-line) x did not match the
comparison pattern, fell through to the truthiness test and ran the item.
---
 internal/condition/condition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..ebd455d 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -9,8 +9,8 @@ import (
 )
 
 var (
-	comparisonPatternSQ = regexp.MustCompile(`^(.+?)\s*(==|!=)\s*'([^']*)'$`)
-	comparisonPatternDQ = regexp.MustCompile(`^(.+?)\s*(==|!=)\s*"([^"]*)"$`)
+	comparisonPatternSQ = regexp.MustCompile(`(?s)^(.*?)\s*(==|!=)\s*'([^']*)'$`)
+	comparisonPatternDQ = regexp.MustCompile(`(?s)^(.*?)\s*(==|!=)\s*"([^"]*)"$`)
 )
 
 type Result struct {
-- 
2.43.0


From 266d8b57781408fdaa460510bc9573d977e499e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 03/38] fix: honour platforms and when on items inside a
 parallel block

Both fields are accepted (and documented) on parallel items but were never
evaluated, so excluded items ran anyway.
---
 internal/runner/parallel.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 2a44382..873f889 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"slices"
 	"strconv"
 	"strings"
@@ -102,6 +103,11 @@ func isAncestor(ctx context.Context, name string) bool {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
+	pr, err := r.activeParallelItems(pr, task, taskVars)
+	if err != nil || len(pr.Items) == 0 {
+		return err
+	}
+
 	labels := make([]string, len(pr.Items))
 	maxLabelLen := 0
 	for i := range pr.Items {
@@ -146,6 +152,30 @@ func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, ta
 	return r.executeParallelInterleaved(ctx, pr, task, tasks, state, labels, maxLabelLen, taskVars, taskEnv, overrideSilent, overrideOutput, noColor, stdout, stderr)
 }
 
+// activeParallelItems returns pr without the items whose platforms or when condition exclude them.
+func (r *Runner) activeParallelItems(pr babfile.ParallelRun, task *babfile.Task, taskVars map[string]string) (babfile.ParallelRun, error) {
+	var items []babfile.RunItem
+	var labels []string
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
+			continue
+		}
+		shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1)
+		if err != nil {
+			return pr, err
+		}
+		if shouldSkip {
+			continue
+		}
+		items = append(items, item)
+		labels = append(labels, pr.ItemLabel(i))
+	}
+	pr.Items = items
+	pr.Labels = labels
+	return pr, nil
+}
+
 func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, labels []string, maxLabelLen int, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, noColor bool, parentOut, parentErr io.Writer) error {
 	var sem chan struct{}
 	if pr.Limit > 0 {
-- 
2.43.0


From 2baa0f466d39541ed817fdea5fc4f4fb65ee5202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 04/38] fix: evaluate a task's when condition in the task's
 variable scope

The condition of an included task could not see the variables of the Babfile it
was written in, and a task's own vars were invisible to its condition.
---
 internal/runner/runner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 7e4f774..1750994 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -172,7 +172,11 @@ func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.
 	}
 
 	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+		if err != nil {
+			return err
+		}
+		whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
 		result, err := condition.Evaluate(task.When, whenCtx)
 		if err != nil {
 			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-- 
2.43.0


From 528d7d2b2ae9e80622d26ae13d436ea059e215df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 05/38] fix: do not run the dependencies of a parallel task
 whose when condition is false

Dependencies of tasks referenced from a parallel block are run before the block
starts; a referenced task that its own when condition skips must not have its
dependencies run, as outside parallel blocks.
---
 internal/runner/parallel.go |  5 +++++
 internal/runner/runner.go   | 36 ++++++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 873f889..eab3bca 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -404,6 +404,11 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if shouldRun, err := r.taskShouldRun(task, tr.Task); err != nil {
+			return err
+		} else if !shouldRun {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 1750994..b12a04b 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -171,20 +171,9 @@ func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.
 		}
 	}
 
-	if task.When != "" {
-		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
-		if err != nil {
-			return err
-		}
-		whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
-		result, err := condition.Evaluate(task.When, whenCtx)
-		if err != nil {
-			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-		}
-		if !result.ShouldRun {
-			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			return nil
-		}
+	shouldRun, err := r.taskShouldRun(task, name)
+	if err != nil || !shouldRun {
+		return err
 	}
 
 	if !r.DryRun && !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
@@ -219,6 +208,25 @@ func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.
 	return nil
 }
 
+func (r *Runner) taskShouldRun(task *babfile.Task, name string) (bool, error) {
+	if task.When == "" {
+		return true, nil
+	}
+	whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	if err != nil {
+		return false, err
+	}
+	whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
+	result, err := condition.Evaluate(task.When, whenCtx)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+	if !result.ShouldRun {
+		log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
+	}
+	return result.ShouldRun, nil
+}
+
 func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babfile.TaskMap, state *syncState, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	platform := runtime.GOOS
 	executed := 0
-- 
2.43.0


From 88ca41d953704baf232bd68334afd8f0502c306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 06/38] fix: interpolate task and global env values once

They were interpolated when the task started and again for every command, so an
escaped $${{ }} was substituted after all and text inside a variable's value
was re-read as a reference.
---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index b12a04b..a0444e8 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -329,10 +329,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	cmdEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv = babfile.MergeEnvMaps(taskEnv, cmdEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From 550a2bb87b9aafa58ed2eaa48d8b07e0877857c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 07/38] fix: ignore escaped references when looking for
 variable cycles

$${{ a }} inside a's own definition is literal text, not a reference to a.
---
 internal/interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..6feb231 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -146,7 +146,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
+		matches := Pattern.FindAllStringSubmatch(EscapePattern.ReplaceAllString(raw, escapePlaceholder), -1)
 		for _, match := range matches {
 			if len(match) < 2 {
 				continue
-- 
2.43.0


From c73a562b1f21ebc41e03a28ffbee7faa9effd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 08/38] fix: give every task its own copy of the variables

A task without vars shared the global map itself, so a prompt answer leaked into
other tasks and concurrent prompts wrote to one map (a fatal runtime error).
---
 internal/interpolate/interpolate.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 6feb231..6c83b77 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -93,13 +93,6 @@ func ResolveVars(vars map[string]string, parentVars map[string]string) (map[stri
 }
 
 func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]string, path string, line int) (map[string]string, error) {
-	if vars == nil {
-		if parentVars == nil {
-			return make(map[string]string), nil
-		}
-		return parentVars, nil
-	}
-
 	resolved := make(map[string]string)
 	for k, v := range parentVars {
 		resolved[k] = v
-- 
2.43.0


From e4141ed9e44daea2b52224069d08a76325fba9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 09/38] fix: keep silent and output of parallel blocks in
 included Babfiles

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..fdbf31c 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -124,6 +124,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Mode:      v.Mode,
 				Limit:     v.Limit,
 				Color:     v.Color,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Platforms: v.Platforms,
 				When:      v.When,
 			}
-- 
2.43.0


From 546cce0b280dca5195dfcbd66ac5efbbf8b02ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 10/38] fix: do not blank lines that end in CRLF in parallel
 output

A carriage return discards what precedes it on the line; one that merely ends
the line must not discard the line itself.
---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..95f62c4 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimSuffix(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From a42285d5b7f5585aaf2377263dcaeedeebf550c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 11/38] fix: do not pick up a directory named like a Babfile

---
 internal/finder/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..83dbc57 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -27,7 +27,7 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			if info, err := os.Stat(path); err == nil && !info.IsDir() {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
-- 
2.43.0


From 61a067d256b1dd5da74a4c612651860f727c11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 12/38] fix: resolve YAML aliases in Babfiles

An alias node was read as the scalar text of the anchor's name, so 'cmd: *c' ran
a command called c.
---
 internal/parser/unmarshal.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 5720a8b..971cd02 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,28 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// resolveYAMLAliases replaces every alias node below node by the node it refers to.
+func resolveYAMLAliases(path string, node *yaml.Node, resolving map[*yaml.Node]bool) error {
+	if inProgress, seen := resolving[node]; seen {
+		if inProgress {
+			return &errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("anchor %q contains itself", node.Anchor)}
+		}
+		return nil
+	}
+	resolving[node] = true
+	for i, child := range node.Content {
+		if child.Kind == yaml.AliasNode {
+			child = child.Alias
+			node.Content[i] = child
+		}
+		if err := resolveYAMLAliases(path, child, resolving); err != nil {
+			return err
+		}
+	}
+	resolving[node] = false
+	return nil
+}
+
 func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	var root yaml.Node
 	if err := yaml.Unmarshal(data, &root); err != nil {
@@ -147,6 +169,10 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid document"}
 	}
 
+	if err := resolveYAMLAliases(path, &root, make(map[*yaml.Node]bool)); err != nil {
+		return nil, err
+	}
+
 	doc := root.Content[0]
 	if doc.Kind != yaml.MappingNode {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
-- 
2.43.0


From 17920a78b7230d9632ef2a509e1c25bd5c7cbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/38] fix: give prompts an answer in dry runs

A dry run never stored anything for a prompt, so previewing a task that uses the
answer failed with an undefined variable. Use the prompt's default, or a
placeholder naming the variable.
---
 internal/runner/runner.go | 5 +++++
 internal/tui/prompt.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index a0444e8..ae726ca 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -276,6 +276,11 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 			if r.DryRun {
 				log.Info("Would prompt", "var", interpolated.Prompt, "type", interpolated.Type, "message", interpolated.Message)
+				answer, err := tui.DefaultAnswer(interpolated)
+				if err != nil {
+					answer = "<" + v.Prompt + ">"
+				}
+				taskVars[v.Prompt] = answer
 			} else {
 				result, err := tui.RunPrompt(ctx, interpolated, interpolated.Message)
 				if err != nil {
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..2e1c58d 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -47,6 +47,11 @@ func RunPrompt(ctx context.Context, p babfile.PromptRun, message string) (string
 	}
 }
 
+// DefaultAnswer returns the answer p yields when nobody is asked, or an error if it has none.
+func DefaultAnswer(p babfile.PromptRun) (string, error) {
+	return handleNonInteractive(p)
+}
+
 func handleNonInteractive(p babfile.PromptRun) (string, error) {
 	switch p.Type {
 	case babfile.PromptTypeConfirm:
-- 
2.43.0


From 2b7eeb726ac7bf2c61d2cb7d1fca5aadd494af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 14/38] fix: name the file a task was written in when reporting
 an error in it

Errors in tasks from an included Babfile cited the main Babfile's path together
with a line number of the included file.
---
 internal/parser/validate.go | 20 ++++++++++----------
 internal/runner/parallel.go |  4 ++--
 internal/runner/runner.go   | 22 +++++++++++-----------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..c7b4bdc 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -7,14 +7,14 @@ import (
 
 func validateAll(path string, tasks babfile.TaskMap) error {
 	verrs := &errs.ValidationErrors{}
-	validateDependencies(path, tasks, verrs)
-	validateRunTaskRefs(path, tasks, verrs)
+	validateDependencies(tasks, verrs)
+	validateRunTaskRefs(tasks, verrs)
 	validateRunCycles(path, tasks, verrs)
-	validateAliases(path, tasks, verrs)
+	validateAliases(tasks, verrs)
 	return verrs.OrNil()
 }
 
-func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateAliases(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	type aliasInfo struct {
 		taskName string
 		line     int
@@ -29,7 +29,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if tasks.Has(alias) {
 				verrs.Add(&errs.AliasConflictError{
-					Path:     path,
+					Path:     task.SourcePath,
 					Line:     task.Line,
 					Alias:    alias,
 					TaskName: name,
@@ -39,7 +39,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if existing, exists := aliasToTask[alias]; exists {
 				verrs.Add(&errs.DuplicateAliasError{
-					Path:         path,
+					Path:         task.SourcePath,
 					Line:         task.Line,
 					Alias:        alias,
 					TaskName:     name,
@@ -54,7 +54,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 	}
 }
 
-func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateDependencies(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
 		for _, dep := range task.Deps {
 			if !tasks.Has(dep) {
@@ -63,7 +63,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 					line = task.Line
 				}
 				verrs.Add(&errs.TaskNotFoundError{
-					Path:         path,
+					Path:         task.SourcePath,
 					Line:         line,
 					TaskName:     dep,
 					ReferencedBy: name,
@@ -74,9 +74,9 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 	}
 }
 
-func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateRunTaskRefs(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
-		validateRunItemTaskRefs(path, name, task.Run, tasks, verrs)
+		validateRunItemTaskRefs(task.SourcePath, name, task.Run, tasks, verrs)
 	}
 }
 
diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index eab3bca..3f491fc 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -161,7 +161,7 @@ func (r *Runner) activeParallelItems(pr babfile.ParallelRun, task *babfile.Task,
 			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
 			continue
 		}
-		shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1)
+		shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1)
 		if err != nil {
 			return pr, err
 		}
@@ -373,7 +373,7 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		return r.runTask(ctx, v.Task, tasks, state, false, effSilent, effOutput, stdout, stderr, noColor, pctx)
 
 	case babfile.LogRun:
-		logCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+		logCtx := interpolate.NewContextWithLocation(taskVars, task.SourcePath, v.Line)
 		interpolatedLog, err := interpolate.Interpolate(v.Log, logCtx)
 		if err != nil {
 			return err
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index ae726ca..89eff32 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -212,11 +212,11 @@ func (r *Runner) taskShouldRun(task *babfile.Task, name string) (bool, error) {
 	if task.When == "" {
 		return true, nil
 	}
-	whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, task.SourcePath, task.Line)
 	if err != nil {
 		return false, err
 	}
-	whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
+	whenCtx := interpolate.NewContextWithLocation(whenVars, task.SourcePath, task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
@@ -232,12 +232,12 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, task.SourcePath, task.Line)
 	if err != nil {
 		return err
 	}
 
-	taskCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	taskCtx := interpolate.NewContextWithLocation(taskVars, task.SourcePath, task.Line)
 
 	taskEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(r.GlobalEnv, task.Env), taskCtx)
 	if err != nil {
@@ -258,7 +258,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 			continue
 		}
 
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			skippedByCondition++
@@ -267,7 +267,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 		switch v := item.(type) {
 		case babfile.PromptRun:
-			promptCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+			promptCtx := interpolate.NewContextWithLocation(taskVars, task.SourcePath, v.Line)
 
 			interpolated, err := interpolatePrompt(v, promptCtx)
 			if err != nil {
@@ -328,7 +328,7 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return fmt.Errorf("task %q has an empty command", task.Name)
 	}
 
-	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+	cmdCtx := interpolate.NewContextWithLocation(taskVars, task.SourcePath, v.Line)
 	interpolatedCmd, err := interpolate.Interpolate(v.Cmd, cmdCtx)
 	if err != nil {
 		return err
@@ -374,20 +374,20 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
-func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
+func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, task *babfile.Task, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
 		return false, nil
 	}
 
-	itemCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, item.GetLine())
+	itemCtx := interpolate.NewContextWithLocation(taskVars, task.SourcePath, item.GetLine())
 	result, err := condition.Evaluate(whenCond, itemCtx)
 	if err != nil {
-		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", taskName, index, err)
+		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", task.Name, index, err)
 	}
 
 	if !result.ShouldRun {
-		log.Debug("Skipping run item", "task", taskName, "index", index, "reason", "when condition", "detail", result.Reason)
+		log.Debug("Skipping run item", "task", task.Name, "index", index, "reason", "when condition", "detail", result.Reason)
 		return true, nil
 	}
 
-- 
2.43.0


From 4c42ae5ae05d7409aca9b402d1d9bf935eee6012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 15/38] fix: keep automatic parallel labels on one line

The label of a multi-line command contained line breaks, so the prefix of its
output spread over several lines.
---
 internal/babfile/run_parallel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/babfile/run_parallel.go b/internal/babfile/run_parallel.go
index 54cdb23..c61d1e7 100644
--- a/internal/babfile/run_parallel.go
+++ b/internal/babfile/run_parallel.go
@@ -2,6 +2,7 @@ package babfile
 
 import (
 	"encoding/json"
+	"strings"
 
 	"github.com/invopop/jsonschema"
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -75,6 +76,7 @@ func (p ParallelRun) ItemLabel(index int) string {
 }
 
 func truncateRunes(s string, max int) string {
+	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
 	r := []rune(s)
 	if len(r) > max {
 		return string(r[:max])
-- 
2.43.0


From 3c4eb07a0eec66e81aeaed8ac45e32f836168c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 16/38] fix: run included tasks in their own Babfile's
 directory by default

The including Babfile's relative dir was applied to included tasks and resolved
against the included Babfile's location, a directory neither file names.
---
 internal/parser/include.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index fdbf31c..a58ebd9 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -35,6 +35,9 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		if taskDir == "" {
 			taskDir = result.GlobalDir
 		}
+		if taskDir == "" {
+			taskDir = "." // the included Babfile's own directory, not the including file's dir
+		}
 
 		taskSilent := task.Silent
 		if taskSilent == nil {
-- 
2.43.0


From 7cb6d994ae24493bc2399fc2a4b93857f9910dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 17/38] fix: use a number prompt's default when the answer is
 left empty

Clearing the prefilled default was accepted but stored an empty string, which is
no number and skipped the min/max check.
---
 internal/tui/prompt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 2e1c58d..3706152 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -262,10 +262,10 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result).
 		Validate(func(s string) error {
 			if s == "" {
-				if p.Default != "" {
-					return nil
+				if p.Default == "" {
+					return errors.New("a number is required")
 				}
-				return errors.New("a number is required")
+				s = p.Default
 			}
 			n, err := strconv.Atoi(s)
 			if err != nil {
@@ -292,5 +292,8 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		return "", err
 	}
 
+	if result == "" {
+		result = p.Default
+	}
 	return result, nil
 }
-- 
2.43.0


From be12701d39d02ff9226cc986a1a0cc409aa415fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 18/38] fix: stop the task after a live parallel block was
 cancelled

Items of a limited block that were skipped because of ctrl+c carry no
error, so a block whose running item happened to end well was treated as
successful and the following items were run.
---
 internal/runner/parallel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 3f491fc..ac16bea 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -335,6 +335,11 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 
 	wg.Wait()
 
+	// Items that were skipped because of the cancellation carry no error of their own.
+	if err := ctx.Err(); err != nil && firstErr == nil {
+		firstErr = fmt.Errorf("cancelled: %w", err)
+	}
+
 	if pctx != nil {
 		program.Send(tui.ItemClearChildrenMsg{Key: pathToKey(basePath)})
 	}
-- 
2.43.0


From d0ca4ab2de55536c207d79fa1246aba966d5012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 19/38] fix: report each dependency cycle once and where it is
 written

A task at which a cycle was found stayed marked as being visited, so
sound tasks referring to it were reported as circular, and chains could
be overwritten through a shared backing array. Cycles of included
Babfiles were attributed to the main one.
---
 internal/errs/parse.go      |  3 +-
 internal/parser/parser.go   |  2 +-
 internal/parser/validate.go | 68 ++++++++++++++++++-------------------
 3 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/internal/errs/parse.go b/internal/errs/parse.go
index d0cedcb..ad078e6 100644
--- a/internal/errs/parse.go
+++ b/internal/errs/parse.go
@@ -40,6 +40,7 @@ func (e *ParseError) Is(target error) bool {
 
 type CircularDepError struct {
 	Path  string
+	Line  int
 	Type  string
 	Chain []string
 }
@@ -47,7 +48,7 @@ type CircularDepError struct {
 func (e *CircularDepError) Error() string {
 	chainStr := strings.Join(e.Chain, " → ")
 	if e.Path != "" {
-		return fmt.Sprintf("%s: circular %s: %s", RelativePath(e.Path), e.Type, chainStr)
+		return fmt.Sprintf("%s: circular %s: %s", FormatLocation(e.Path, e.Line, 0), e.Type, chainStr)
 	}
 	return fmt.Sprintf("circular %s: %s", e.Type, chainStr)
 }
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d8355de..80ef803 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -39,7 +39,7 @@ func Parse(path string) (*ParseResult, error) {
 		return nil, err
 	}
 
-	if err := validateAll(absPath, result.Tasks); err != nil {
+	if err := validateAll(result.Tasks); err != nil {
 		return nil, err
 	}
 
diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index c7b4bdc..bab3c9f 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,15 +1,17 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
 
-func validateAll(path string, tasks babfile.TaskMap) error {
+func validateAll(tasks babfile.TaskMap) error {
 	verrs := &errs.ValidationErrors{}
 	validateDependencies(tasks, verrs)
 	validateRunTaskRefs(tasks, verrs)
-	validateRunCycles(path, tasks, verrs)
+	validateRunCycles(tasks, verrs)
 	validateAliases(tasks, verrs)
 	return verrs.OrNil()
 }
@@ -99,66 +101,62 @@ func validateRunItemTaskRefs(path, referencedBy string, items []babfile.RunItem,
 	}
 }
 
-func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
+func validateRunCycles(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	visited := make(map[string]bool)
 	recStack := make(map[string]bool)
 
 	var dfs func(name string, chain []string)
-	var checkItems func(items []babfile.RunItem, chain []string)
+	var checkItems func(task *babfile.Task, items []babfile.RunItem, chain []string)
+
+	follow := func(task *babfile.Task, line int, target string, chain []string) {
+		if recStack[target] {
+			cycle := slices.Clone(chain[slices.Index(chain, target):])
+			verrs.Add(&errs.CircularDepError{
+				Path:  task.SourcePath,
+				Line:  line,
+				Type:  "dependency",
+				Chain: append(cycle, target),
+			})
+			return
+		}
+		if !visited[target] && tasks.Has(target) {
+			dfs(target, chain)
+		}
+	}
 
-	checkItems = func(items []babfile.RunItem, chain []string) {
+	checkItems = func(task *babfile.Task, items []babfile.RunItem, chain []string) {
 		for _, item := range items {
 			switch v := item.(type) {
 			case babfile.TaskRun:
-				if recStack[v.Task] {
-					chain = append(chain, v.Task)
-					verrs.Add(&errs.CircularDepError{
-						Path:  path,
-						Type:  "dependency",
-						Chain: chain,
-					})
-					return
-				}
-				if !visited[v.Task] && tasks.Has(v.Task) {
-					dfs(v.Task, chain)
-				}
+				follow(task, v.Line, v.Task, chain)
 			case babfile.ParallelRun:
-				checkItems(v.Items, chain)
+				checkItems(task, v.Items, chain)
 			}
 		}
 	}
 
 	dfs = func(name string, chain []string) {
 		visited[name] = true
-		recStack[name] = true
-		chain = append(chain, name)
 
 		task := tasks[name]
 		if task == nil {
-			recStack[name] = false
 			return
 		}
 
+		recStack[name] = true
+		chain = append(chain, name)
+
 		for _, dep := range task.Deps {
-			if recStack[dep] {
-				chain = append(chain, dep)
-				verrs.Add(&errs.CircularDepError{
-					Path:  path,
-					Type:  "dependency",
-					Chain: chain,
-				})
-				return
-			}
-			if !visited[dep] && tasks.Has(dep) {
-				dfs(dep, chain)
-			}
+			follow(task, task.DepsLine, dep, chain)
 		}
+		checkItems(task, task.Run, chain)
 
-		checkItems(task.Run, chain)
 		recStack[name] = false
 	}
 
-	for name := range tasks {
+	names := tasks.Names()
+	slices.Sort(names)
+	for _, name := range names {
 		if !visited[name] {
 			dfs(name, nil)
 		}
-- 
2.43.0


From 4c051e02932076f6cbfc38737b5c3c63ff348958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 20/38] fix: compare the condition as written, not operators
 inside substituted values

`${{ x }}` with a value such as "a == 'b'" was evaluated as a comparison
instead of as a value, and a quote in a value on the right side made any
comparison true.
---
 internal/condition/condition.go | 47 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index ebd455d..c7f62ff 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -23,38 +23,47 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 		return Result{ShouldRun: true, Reason: "no condition"}, nil
 	}
 
+	// The comparison is the one written in the condition: operators and quotes
+	// inside a substituted value are part of that value.
+	if left, op, right, ok := splitComparison(strings.TrimSpace(condition)); ok {
+		left, err := interpolate.Interpolate(left, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		right, err := interpolate.Interpolate(right, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		return evaluateOp(trimOperand(left), op, right), nil
+	}
+
 	interpolated, err := interpolate.Interpolate(condition, ctx)
 	if err != nil {
 		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
 	}
 
-	interpolated = strings.TrimSpace(interpolated)
-
-	if result, ok := evaluateComparison(interpolated); ok {
-		return result, nil
-	}
-
 	return evaluateTruthy(interpolated), nil
 }
 
 func evaluateComparison(s string) (Result, bool) {
-	if matches := comparisonPatternSQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+	left, op, right, ok := splitComparison(s)
+	if !ok {
+		return Result{}, false
 	}
+	return evaluateOp(trimOperand(left), op, right), true
+}
 
-	if matches := comparisonPatternDQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+func splitComparison(s string) (left, op, right string, ok bool) {
+	for _, pattern := range []*regexp.Regexp{comparisonPatternSQ, comparisonPatternDQ} {
+		if matches := pattern.FindStringSubmatch(s); len(matches) == 4 {
+			return matches[1], matches[2], matches[3], true
+		}
 	}
+	return "", "", "", false
+}
 
-	return Result{}, false
+func trimOperand(s string) string {
+	return strings.Trim(strings.TrimSpace(s), "'\"")
 }
 
 func evaluateOp(left, op, right string) Result {
-- 
2.43.0


From eff8527d50dea9f0ace1e6f62d94e2eb7cd6d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 21/38] fix: resolve the variables of an included Babfile in
 their own scope

Its globals and a task's vars were merged before they were resolved, so a
global that refers to a variable the task overrides got another value than in
the Babfile on its own, or a circular reference was reported.
---
 internal/babfile/task.go     | 13 +++++++++++++
 internal/babfile/variable.go |  7 +++++++
 internal/parser/include.go   |  2 ++
 internal/runner/runner.go    | 16 ++++++++++++++--
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/internal/babfile/task.go b/internal/babfile/task.go
index 2bcc22a..bfed715 100644
--- a/internal/babfile/task.go
+++ b/internal/babfile/task.go
@@ -23,6 +23,19 @@ type Task struct {
 	When       string            `json:"when,omitempty" yaml:"when,omitempty"`
 	Deps       []string          `json:"deps,omitempty" yaml:"deps,omitempty"`
 	Run        []RunItem         `json:"-" yaml:"-"`
+
+	// Scopes holds the variable definitions of an included task that Vars merges:
+	// the globals of the Babfiles it was included through, outermost first, then its own.
+	Scopes []VarScope `json:"-" yaml:"-"`
+}
+
+// VarScopes returns the definitions of the task's variables, outermost scope first.
+// A scope may refer to its own and to the outer variables only.
+func (t *Task) VarScopes() []VarScope {
+	if len(t.Scopes) > 0 {
+		return t.Scopes
+	}
+	return []VarScope{{Vars: t.Vars, Path: t.SourcePath, Line: t.Line}}
 }
 
 func (t *Task) GetAllAliases() []string {
diff --git a/internal/babfile/variable.go b/internal/babfile/variable.go
index f956579..175623d 100644
--- a/internal/babfile/variable.go
+++ b/internal/babfile/variable.go
@@ -6,6 +6,13 @@ const VarNamePattern = "^[a-zA-Z_][a-zA-Z0-9_]*$"
 
 type VarMap map[string]string
 
+// VarScope is a set of variable definitions and the place they are written at.
+type VarScope struct {
+	Vars VarMap
+	Path string
+	Line int
+}
+
 func MergeVarMaps(varMaps ...VarMap) VarMap {
 	merged := make(VarMap)
 	for _, vm := range varMaps {
diff --git a/internal/parser/include.go b/internal/parser/include.go
index a58ebd9..5593be2 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -29,6 +29,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		}
 
 		taskVars := babfile.MergeVarMaps(result.GlobalVars, task.Vars)
+		scopes := append([]babfile.VarScope{{Vars: result.GlobalVars, Path: result.Path}}, task.VarScopes()...)
 		taskEnv := babfile.MergeEnvMaps(result.GlobalEnv, task.Env)
 
 		taskDir := task.Dir
@@ -65,6 +66,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 			When:       task.When,
 			Deps:       prefixDeps(task.Deps, namespace),
 			Run:        prefixTaskRuns(task.Run, namespace),
+			Scopes:     scopes,
 		}
 	}
 
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 89eff32..ce0f593 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -212,7 +212,7 @@ func (r *Runner) taskShouldRun(task *babfile.Task, name string) (bool, error) {
 	if task.When == "" {
 		return true, nil
 	}
-	whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, task.SourcePath, task.Line)
+	whenVars, err := r.resolveTaskVars(task)
 	if err != nil {
 		return false, err
 	}
@@ -227,12 +227,24 @@ func (r *Runner) taskShouldRun(task *babfile.Task, name string) (bool, error) {
 	return result.ShouldRun, nil
 }
 
+func (r *Runner) resolveTaskVars(task *babfile.Task) (map[string]string, error) {
+	vars := r.GlobalVars
+	for _, scope := range task.VarScopes() {
+		resolved, err := interpolate.ResolveVarsWithLocation(scope.Vars, vars, scope.Path, scope.Line)
+		if err != nil {
+			return nil, err
+		}
+		vars = resolved
+	}
+	return vars, nil
+}
+
 func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babfile.TaskMap, state *syncState, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	platform := runtime.GOOS
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, task.SourcePath, task.Line)
+	taskVars, err := r.resolveTaskVars(task)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 403e49706d8434144bf0747f73b7673576a7be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 22/38] fix: pass on only plain SGR sequences of captured
 output

---
 internal/runner/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index 95f62c4..955a6c2 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -31,7 +31,8 @@ func sanitizeLine(line string) string {
 		}
 		state = newState
 		if ansi.HasCsiPrefix(seq) {
-			if p.Command()&0xff == 'm' {
+			// With a private prefix or intermediates the command is not SGR.
+			if p.Command() == 'm' {
 				b.WriteString(seq)
 			}
 		} else if !ansi.HasOscPrefix(seq) && !ansi.HasEscPrefix(seq) &&
-- 
2.43.0


From 2e6a7e319bf74d73b0bed329de61abaf7f4318b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 23/38] fix: strip DEL, C1 and, with color off, all control
 characters from captured output

---
 internal/runner/writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index 955a6c2..3a8febe 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	"sync"
+	"unicode"
 
 	tea "charm.land/bubbletea/v2"
 	"charm.land/lipgloss/v2"
@@ -59,12 +60,12 @@ func stripControlChars(s string) string {
 }
 
 func isUnsafeControl(r rune) bool {
-	return r < 0x20 && r != '\t' && r != '\x1b'
+	return unicode.IsControl(r) && r != '\t' && r != '\x1b'
 }
 
 func cleanLine(line string, strip bool) string {
 	if strip {
-		return ansi.Strip(line)
+		return stripControlChars(ansi.Strip(line))
 	}
 	return sanitizeLine(line)
 }
-- 
2.43.0


From 9a0278aa9b227b36eed9a6c57ded7cc985cf06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 24/38] fix: remove control strings containing UTF-8 text from
 captured output as a whole

---
 internal/runner/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index 3a8febe..636068a 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"image/color"
 	"io"
+	"regexp"
 	"strings"
 	"sync"
 	"unicode"
@@ -63,7 +64,12 @@ func isUnsafeControl(r rune) bool {
 	return unicode.IsControl(r) && r != '\t' && r != '\x1b'
 }
 
+// controlString matches OSC, DCS, SOS, PM and APC strings. The ansi package takes the
+// 0x9c byte inside a UTF-8 character for their terminator, so only a terminator is left of them.
+var controlString = regexp.MustCompile(`\x1b(?:\][^\x07\x18\x1a\x1b]*(?:\x07|\x1b\\)?|[PX^_][^\x18\x1a\x1b]*(?:\x1b\\)?)`)
+
 func cleanLine(line string, strip bool) string {
+	line = controlString.ReplaceAllLiteralString(line, "\x1b\\")
 	if strip {
 		return stripControlChars(ansi.Strip(line))
 	}
-- 
2.43.0


From a08ff81122c67d590a835d7a3f6b82f900a14697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 25/38] fix: reject mappings and sequences where a task or run
 item takes a string

---
 internal/parser/unmarshal.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 971cd02..9dc1ce9 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,25 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// isStringKey reports whether key takes a plain string in a task or run item.
+func isStringKey(key string) bool {
+	switch key {
+	case keyAlias, keyDesc, keyWhen, keyCmd, keyTask, keyLog, keyLevel, keyLabel,
+		keyPrompt, keyType, keyMessage, keyDefault, keyPlaceholder, keyValidate:
+		return true
+	}
+	return false
+}
+
+// checkString rejects a mapping or sequence where key takes a plain string.
+func checkString(path, prefix string, key, val *yaml.Node, verrs *errs.ValidationErrors) bool {
+	if !isStringKey(key.Value) || val.Kind == yaml.ScalarNode {
+		return true
+	}
+	verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("%s: %s must be a string", prefix, key.Value)})
+	return false
+}
+
 // resolveYAMLAliases replaces every alias node below node by the node it refers to.
 func resolveYAMLAliases(path string, node *yaml.Node, resolving map[*yaml.Node]bool) error {
 	if inProgress, seen := resolving[node]; seen {
@@ -266,6 +285,11 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 		key := node.Content[i]
 		val := node.Content[i+1]
 
+		if !checkString(path, fmt.Sprintf("task %q", taskName), key, val, verrs) {
+			hasErrors = true
+			continue
+		}
+
 		switch key.Value {
 		case keyDesc:
 			task.Desc = val.Value
@@ -459,6 +483,11 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 		key := node.Content[i]
 		val := node.Content[i+1]
 
+		if !checkString(path, fmt.Sprintf("task %q: run[%d]", taskName, index), key, val, verrs) {
+			rf.hasErrors = true
+			continue
+		}
+
 		switch key.Value {
 		case keyCmd:
 			rf.cmd = val.Value
@@ -557,6 +586,9 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		pf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 		return ok
 	case keyWhen:
+		if !checkString(path, prefix, key, val, verrs) {
+			return false
+		}
 		pf.when = val.Value
 	default:
 		verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("%s: unknown key %q in parallel block", prefix, key.Value)})
-- 
2.43.0


From 4f5be9bcd3ac2897db2f937d1ff122cd82245aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 26/38] fix: reject fractional numbers for limit, min and max

---
 internal/parser/unmarshal.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 9dc1ce9..25fbee3 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,14 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// decodeInt decodes an integer, which yaml.v3 alone would also make of 1.5.
+func decodeInt(node *yaml.Node, v *int) error {
+	if node.ShortTag() == "!!float" {
+		return fmt.Errorf("%s is not an integer", node.Value)
+	}
+	return node.Decode(v)
+}
+
 // isStringKey reports whether key takes a plain string in a task or run item.
 func isStringKey(key string) bool {
 	switch key {
@@ -390,14 +398,14 @@ func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string
 		}
 	case keyMin:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid min value", taskName, index), Cause: err})
 			return false
 		}
 		pf.min = &v
 	case keyMax:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid max value", taskName, index), Cause: err})
 			return false
 		}
@@ -566,7 +574,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		}
 	case keyLimit:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("%s: invalid limit value", prefix), Cause: err})
 			return false
 		}
-- 
2.43.0


From ec3ec10c64b979e8823ae02f56b3b9c50c478898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 27/38] fix: report an include cycle as the chain of includes
 that closes it

---
 internal/parser/include.go |  4 ++--
 internal/parser/parser.go  | 26 +++++++++++---------------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 5593be2..afe7eab 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -8,7 +8,7 @@ import (
 	"github.com/charmbracelet/log"
 )
 
-func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, visited map[string]bool) error {
+func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, stack []string) error {
 	incPath := babfilePath
 	if !filepath.IsAbs(incPath) {
 		incPath = filepath.Join(baseDir, incPath)
@@ -17,7 +17,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 
 	log.Debug("Resolving include", "namespace", namespace, "path", incPath)
 
-	result, err := parseFile(incPath, visited)
+	result, err := parseFile(incPath, stack)
 	if err != nil {
 		return err
 	}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 80ef803..e61a1b8 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -33,8 +33,7 @@ func Parse(path string) (*ParseResult, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid path", Cause: err}
 	}
 
-	visited := make(map[string]bool)
-	result, err := parseFile(absPath, visited)
+	result, err := parseFile(absPath, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -46,15 +45,14 @@ func Parse(path string) (*ParseResult, error) {
 	return result, nil
 }
 
-func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
+// parseFile parses the file at absPath; stack holds the files on the way to it, outermost first.
+func parseFile(absPath string, stack []string) (*ParseResult, error) {
 	log.Debug("Parsing babfile", "path", absPath)
 
-	if visited[absPath] {
-		chain := chainFromVisited(visited, absPath)
-		return nil, &errs.CircularDepError{Path: absPath, Type: "include", Chain: chain}
+	if i := slices.Index(stack, absPath); i >= 0 {
+		return nil, &errs.CircularDepError{Path: absPath, Type: "include", Chain: includeChain(stack[i:], absPath)}
 	}
-	visited[absPath] = true
-	defer delete(visited, absPath)
+	stack = append(slices.Clone(stack), absPath)
 
 	data, err := os.ReadFile(absPath)
 	if err != nil {
@@ -95,7 +93,7 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 
 	baseDir := filepath.Dir(absPath)
 	for namespace, inc := range bf.Includes {
-		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, visited); err != nil {
+		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, stack); err != nil {
 			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
 		}
 	}
@@ -125,12 +123,10 @@ func buildAliasMap(tasks babfile.TaskMap) map[string]string {
 	return aliases
 }
 
-func chainFromVisited(visited map[string]bool, current string) []string {
-	chain := make([]string, 0, len(visited)+1)
-	for path := range visited {
+func includeChain(stack []string, current string) []string {
+	chain := make([]string, 0, len(stack)+1)
+	for _, path := range stack {
 		chain = append(chain, filepath.Base(path))
 	}
-	slices.Sort(chain)
-	chain = append(chain, filepath.Base(current))
-	return chain
+	return append(chain, filepath.Base(current))
 }
-- 
2.43.0


From acf8ec4bcf049e54e02e1e11a7ffb1dbaea1b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 28/38] fix: name the line of an include that fails

---
 internal/babfile/include.go  | 1 +
 internal/parser/parser.go    | 2 +-
 internal/parser/unmarshal.go | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/babfile/include.go b/internal/babfile/include.go
index 80c632e..fd57fc1 100644
--- a/internal/babfile/include.go
+++ b/internal/babfile/include.go
@@ -6,6 +6,7 @@ import (
 )
 
 type Include struct {
+	Line    int    `json:"-" yaml:"-"`
 	Babfile string `json:"babfile" yaml:"babfile"`
 }
 
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index e61a1b8..c278d6e 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -94,7 +94,7 @@ func parseFile(absPath string, stack []string) (*ParseResult, error) {
 	baseDir := filepath.Dir(absPath)
 	for namespace, inc := range bf.Includes {
 		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, stack); err != nil {
-			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
+			return nil, &errs.ParseError{Path: absPath, Line: inc.Line, Message: "include " + namespace + " failed", Cause: err}
 		}
 	}
 
diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 25fbee3..253451c 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -899,6 +899,7 @@ func parseIncludes(path string, node *yaml.Node, schema *babfile.Schema, verrs *
 			verrs.Add(&errs.ParseError{Path: path, Line: nameNode.Line, Message: fmt.Sprintf("include %q", nameNode.Value), Cause: err})
 			continue
 		}
+		inc.Line = nameNode.Line
 		schema.Includes[nameNode.Value] = inc
 	}
 }
-- 
2.43.0


From 49305ac781b6f25946f8a6e954d34292aebe64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 29/38] fix: keep an ended prompt from taking the next key
 typed

---
 internal/tui/parallel.go |  4 +++-
 internal/tui/prompt.go   | 21 ++++++++++++++-------
 internal/tui/tui.go      | 19 ++++++++++++++++++-
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index c1f701c..7bd1c41 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -46,8 +46,10 @@ type ItemClearChildrenMsg struct {
 type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
-	program := tea.NewProgram(model, tea.WithOutput(os.Stderr))
+	input, release := ownInput()
+	program := tea.NewProgram(model, input, tea.WithOutput(os.Stderr))
 	go func() {
+		defer release()
 		_, _ = program.Run()
 	}()
 	return program, nil
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 3706152..9f3f482 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 
+	tea "charm.land/bubbletea/v2"
 	"charm.land/huh/v2"
 	"github.com/bab-sh/bab/internal/babfile"
 	"golang.org/x/term"
@@ -86,6 +87,12 @@ func normalizeConfirmDefault(s string) string {
 	}
 }
 
+func runForm(ctx context.Context, form *huh.Form) error {
+	input, release := ownInput()
+	defer release()
+	return form.WithProgramOptions(tea.WithOutput(os.Stderr), input).RunWithContext(ctx)
+}
+
 func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
 	var result bool
 
@@ -98,7 +105,7 @@ func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (strin
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(confirm))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -133,7 +140,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -160,7 +167,7 @@ func runSelect(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(sel))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -200,7 +207,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 	}
 
 	form := huh.NewForm(huh.NewGroup(multi))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -219,7 +226,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(pw))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -240,7 +247,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 			})
 
 		confirmForm := huh.NewForm(huh.NewGroup(confirmPw))
-		if err := confirmForm.RunWithContext(ctx); err != nil {
+		if err := runForm(ctx, confirmForm); err != nil {
 			if errors.Is(err, huh.ErrUserAborted) {
 				return "", ErrPromptCancelled
 			}
@@ -285,7 +292,7 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index 83645b5..3281f21 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -16,7 +16,10 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 		return nil, errs.ErrNoTasks
 	}
 
-	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx)).Run()
+	input, release := ownInput()
+	defer release()
+
+	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx), input).Run()
 	if err != nil {
 		if errors.Is(err, tea.ErrProgramKilled) {
 			return nil, context.Canceled
@@ -30,3 +33,17 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 	}
 	return model.Selected(), nil
 }
+
+// ownInput gives one program a terminal handle of its own, to be released when the program has ended.
+// An ended program may leave a reader behind that takes the next key from its handle; once the handle
+// is closed that key reaches whoever reads the terminal next.
+func ownInput() (tea.ProgramOption, func()) {
+	in, out, err := tea.OpenTTY()
+	if err != nil {
+		return func(*tea.Program) {}, func() {}
+	}
+	return tea.WithInput(in), func() {
+		_ = in.Close()
+		_ = out.Close()
+	}
+}
-- 
2.43.0


From d12643741e6ec102a6cf6da29465999c5c060ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 30/38] fix: keep following the output when the window of the
 tabs view shrinks

---
 internal/tui/parallel_tabs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/parallel_tabs.go b/internal/tui/parallel_tabs.go
index 5ff535f..bcad0e0 100644
--- a/internal/tui/parallel_tabs.go
+++ b/internal/tui/parallel_tabs.go
@@ -94,12 +94,12 @@ func (m *tabsModel) updateViewport() {
 	if contentHeight < 1 {
 		contentHeight = 1
 	}
+	atBottom := m.viewport.AtBottom()
 	m.viewport.SetWidth(contentWidth)
 	m.viewport.SetHeight(contentHeight)
 
 	content := m.buildContent(activeItem, contentWidth)
 
-	atBottom := m.viewport.AtBottom()
 	m.viewport.SetContent(content)
 	if atBottom {
 		m.viewport.GotoBottom()
-- 
2.43.0


From 659b482b4d423525824ae3ad6764b9ee273a4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 31/38] fix: the schema accepts the documented integer default
 of number prompts

---
 internal/babfile/run_prompt.go | 1 +
 schema/babfile.schema.json     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/internal/babfile/run_prompt.go b/internal/babfile/run_prompt.go
index 669f4f4..64ed5ca 100644
--- a/internal/babfile/run_prompt.go
+++ b/internal/babfile/run_prompt.go
@@ -104,6 +104,7 @@ func PromptRunSchema() *jsonschema.Schema {
 		OneOf: []*jsonschema.Schema{
 			{Type: "string"},
 			{Type: "boolean"},
+			{Type: "integer"},
 		},
 		Description: "Default value for the prompt",
 	})
diff --git a/schema/babfile.schema.json b/schema/babfile.schema.json
index 567cea9..cd3ac00 100644
--- a/schema/babfile.schema.json
+++ b/schema/babfile.schema.json
@@ -329,6 +329,9 @@
                 },
                 {
                   "type": "boolean"
+                },
+                {
+                  "type": "integer"
                 }
               ],
               "description": "Default value for the prompt"
-- 
2.43.0


From 633a224ed17a026a85862669cf74aec0eaf7d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:23 +0000
Subject: [PATCH 32/38] fix: keep a signal from hanging a prompt, the task
 picker or a live view

---
 internal/tui/parallel.go | 2 +-
 internal/tui/prompt.go   | 6 +++++-
 internal/tui/tui.go      | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index 7bd1c41..5b7e761 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -47,7 +47,7 @@ type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
 	input, release := ownInput()
-	program := tea.NewProgram(model, input, tea.WithOutput(os.Stderr))
+	program := tea.NewProgram(model, input, tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
 	go func() {
 		defer release()
 		_, _ = program.Run()
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 9f3f482..5be197f 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -90,7 +90,11 @@ func normalizeConfirmDefault(s string) string {
 func runForm(ctx context.Context, form *huh.Form) error {
 	input, release := ownInput()
 	defer release()
-	return form.WithProgramOptions(tea.WithOutput(os.Stderr), input).RunWithContext(ctx)
+	err := form.WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler(), input).RunWithContext(ctx)
+	if ctx.Err() != nil {
+		return ctx.Err()
+	}
+	return err
 }
 
 func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index 3281f21..48f282c 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -19,7 +19,7 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 	input, release := ownInput()
 	defer release()
 
-	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx), input).Run()
+	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx), tea.WithoutSignalHandler(), input).Run()
 	if err != nil {
 		if errors.Is(err, tea.ErrProgramKilled) {
 			return nil, context.Canceled
-- 
2.43.0


From f5570b6ca8fd5dca1d7ad49007bc9964bfced422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 33/38] fix: ask prompts of parallel tasks one at a time and
 pause the live view meanwhile

---
 internal/runner/parallel.go |  1 +
 internal/tui/prompt.go      | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index ac16bea..2318507 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -272,6 +272,7 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 		if err != nil {
 			return fmt.Errorf("failed to start parallel TUI: %w", err)
 		}
+		ctx = tui.WithView(ctx, program)
 
 		log.SetOutput(io.Discard)
 		defer log.SetOutput(os.Stderr)
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5be197f..f91b47f 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -25,11 +25,35 @@ const (
 	boolFalse = "false"
 )
 
+type viewKey struct{}
+
+// WithView tells prompts run with the context which live view has the terminal.
+func WithView(ctx context.Context, view *tea.Program) context.Context {
+	return context.WithValue(ctx, viewKey{}, view)
+}
+
+// promptTurn is held by the prompt that has the terminal.
+var promptTurn = make(chan struct{}, 1)
+
 func RunPrompt(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
 	if !term.IsTerminal(int(os.Stdin.Fd())) {
 		return handleNonInteractive(p)
 	}
 
+	select {
+	case promptTurn <- struct{}{}:
+		defer func() { <-promptTurn }()
+	case <-ctx.Done():
+		return "", ctx.Err()
+	}
+
+	if view, ok := ctx.Value(viewKey{}).(*tea.Program); ok {
+		if err := view.ReleaseTerminal(); err != nil {
+			return "", err
+		}
+		defer func() { _ = view.RestoreTerminal() }()
+	}
+
 	switch p.Type {
 	case babfile.PromptTypeConfirm:
 		return runConfirm(ctx, p, message)
-- 
2.43.0


From 52ae4162c0f251c3676980e84798ece6ca442fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 34/38] fix: show debug messages in parallel blocks only with
 --verbose

---
 internal/runner/parallel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 2318507..589f934 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -388,6 +388,9 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		case r.DryRun:
 			log.Info("Would log", "msg", interpolatedLog, "level", v.Level)
 		case stdout != nil:
+			if v.Level == babfile.LogLevelDebug && log.GetLevel() > log.DebugLevel {
+				return nil
+			}
 			_, _ = fmt.Fprintln(stdout, output.RenderLog(interpolatedLog, v.Level))
 		default:
 			executeLog(babfile.LogRun{Log: interpolatedLog, Level: v.Level})
-- 
2.43.0


From 71bdbc13fb1ba71e28f2e9cfaa963a2d500206c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 35/38] fix: installer stops when curl fails while asking for
 the release

---
 install.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index fe7dd81..14c5d47 100755
--- a/install.sh
+++ b/install.sh
@@ -248,9 +248,9 @@ http_download_curl() {
   source_url=$2
   header=$3
   if [ -z "$header" ]; then
-    code=$(curl -w '%{http_code}' -sL -o "$local_file" "$source_url")
+    code=$(curl -w '%{http_code}' -sL -o "$local_file" "$source_url") || return 1
   else
-    code=$(curl -w '%{http_code}' -sL -H "$header" -o "$local_file" "$source_url")
+    code=$(curl -w '%{http_code}' -sL -H "$header" -o "$local_file" "$source_url") || return 1
   fi
   if [ "$code" != "200" ]; then
     log_err "http_download_curl received HTTP status $code"
-- 
2.43.0


From 1181349c2e97bcd408e74eb0910083ad7275191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 36/38] fix: installer computes checksums with openssl

---
 install.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index 14c5d47..d3a0cbd 100755
--- a/install.sh
+++ b/install.sh
@@ -315,8 +315,8 @@ hash_sha256() {
     hash=$(shasum -a 256 "$TARGET" 2>/dev/null) || return 1
     echo "$hash" | cut -d ' ' -f 1
   elif is_command openssl; then
-    hash=$(openssl dgst -sha256 "$TARGET") || return 1
-    echo "$hash" | cut -d ' ' -f a
+    hash=$(openssl dgst -sha256 -r "$TARGET") || return 1
+    echo "$hash" | cut -d ' ' -f 1
   else
     log_crit "hash_sha256 unable to find command to compute sha-256 hash"
     return 1
-- 
2.43.0


From db57918d615724b37604e73e031c2755cc1ced25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:13 +0000
Subject: [PATCH 37/38] fix: installer tells a pre-release from the release of
 that version

---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index d3a0cbd..ec565e4 100755
--- a/install.sh
+++ b/install.sh
@@ -67,7 +67,7 @@ check_path() {
 
 get_installed_version() {
   if is_command "${BINARY}"; then
-    installed_version=$("${BINARY}" --version 2>/dev/null | grep -oE 'v?[0-9]+\.[0-9]+\.[0-9]+' | head -n1)
+    installed_version=$("${BINARY}" --version 2>/dev/null | grep -oE 'v?[0-9]+\.[0-9]+\.[0-9]+(-[0-9A-Za-z.-]+)?' | head -n1)
     echo "${installed_version}"
   fi
 }
-- 
2.43.0


From 66eb6f287c9557ecfd2781e807018ffd46dd945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 38/38] fix: report the same problems in the same order each
 time

---
 internal/interpolate/interpolate.go | 13 +++++++++++--
 internal/parser/include.go          |  5 ++++-
 internal/parser/parser.go           |  4 +++-
 internal/parser/validate.go         | 10 +++++++---
 internal/runner/runner.go           |  6 ++++--
 5 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 6c83b77..734dfcd 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -1,8 +1,11 @@
 package interpolate
 
 import (
+	"errors"
+	"maps"
 	"os"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/errs"
@@ -105,7 +108,9 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 	allVarNames := func() []string {
 		names := make([]string, 0, len(vars)+len(parentVars))
 		for k := range vars {
-			names = append(names, k)
+			if !resolving[k] {
+				names = append(names, k)
+			}
 		}
 		for k := range parentVars {
 			if _, exists := vars[k]; !exists {
@@ -163,6 +168,10 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		ctx := NewContextWithLocation(resolved, path, line)
 		value, err := Interpolate(raw, ctx)
 		if err != nil {
+			var notFound *errs.VarNotFoundError
+			if errors.As(err, &notFound) {
+				notFound.Available = allVarNames()
+			}
 			return "", err
 		}
 
@@ -174,7 +183,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		return value, nil
 	}
 
-	for name := range vars {
+	for _, name := range slices.Sorted(maps.Keys(vars)) {
 		if _, err := resolveOne(name); err != nil {
 			return nil, err
 		}
diff --git a/internal/parser/include.go b/internal/parser/include.go
index afe7eab..2cdd876 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -1,7 +1,9 @@
 package parser
 
 import (
+	"maps"
 	"path/filepath"
+	"slices"
 
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
@@ -22,7 +24,8 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		return err
 	}
 
-	for name, task := range result.Tasks {
+	for _, name := range slices.Sorted(maps.Keys(result.Tasks)) {
+		task := result.Tasks[name]
 		prefixedName := namespace + ":" + name
 		if tasks.Has(prefixedName) {
 			return &errs.ParseError{Path: incPath, Message: "task name collision: " + prefixedName}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index c278d6e..8466b19 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -92,7 +93,8 @@ func parseFile(absPath string, stack []string) (*ParseResult, error) {
 	}
 
 	baseDir := filepath.Dir(absPath)
-	for namespace, inc := range bf.Includes {
+	for _, namespace := range slices.Sorted(maps.Keys(bf.Includes)) {
+		inc := bf.Includes[namespace]
 		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, stack); err != nil {
 			return nil, &errs.ParseError{Path: absPath, Line: inc.Line, Message: "include " + namespace + " failed", Cause: err}
 		}
diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index bab3c9f..c4ff7c4 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"maps"
 	"slices"
 
 	"github.com/bab-sh/bab/internal/babfile"
@@ -23,7 +24,8 @@ func validateAliases(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	}
 	aliasToTask := make(map[string]aliasInfo)
 
-	for name, task := range tasks {
+	for _, name := range slices.Sorted(maps.Keys(tasks)) {
+		task := tasks[name]
 		for _, alias := range task.GetAllAliases() {
 			if alias == "" {
 				continue
@@ -57,7 +59,8 @@ func validateAliases(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 }
 
 func validateDependencies(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
-	for name, task := range tasks {
+	for _, name := range slices.Sorted(maps.Keys(tasks)) {
+		task := tasks[name]
 		for _, dep := range task.Deps {
 			if !tasks.Has(dep) {
 				line := task.DepsLine
@@ -77,7 +80,8 @@ func validateDependencies(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 }
 
 func validateRunTaskRefs(tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
-	for name, task := range tasks {
+	for _, name := range slices.Sorted(maps.Keys(tasks)) {
+		task := tasks[name]
 		validateRunItemTaskRefs(task.SourcePath, name, task.Run, tasks, verrs)
 	}
 }
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index ce0f593..f830f88 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -4,10 +4,12 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/babfile"
@@ -458,8 +460,8 @@ func (r *Runner) interpolateEnv(env map[string]string, ctx *interpolate.Context)
 	}
 
 	result := make(map[string]string, len(env))
-	for k, v := range env {
-		interpolated, err := interpolate.Interpolate(v, ctx)
+	for _, k := range slices.Sorted(maps.Keys(env)) {
+		interpolated, err := interpolate.Interpolate(env[k], ctx)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

