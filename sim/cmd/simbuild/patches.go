package main

// patch replaces old, which has to occur exactly once in the file, by new.
type patch struct{ file, old, new string }

// runtimePatches are applied to copies of files of package runtime, or of the
// package named by the path. A Go
// release in which an anchor is missing makes the build fail loudly.
var runtimePatches = []patch{
	// The seed of every random generator of the process is constant.
	{"rand.go", "\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
	{"rand.go", "func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n\tif simInRun() {\n\t\treturn sim.mapconst\n\t}\n"},
	{"rand.go", "func rand32() uint32 {\n", "func rand32() uint32 {\n\tif simInRun() {\n\t\treturn uint32(sim.mapconst)\n\t}\n"},
	{"rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simInRun() {\n\t\treturn simNextRand(&sim.any)\n\t}\n"},
	{"time.go", "\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simTimerRand()\n"},
	// Per-goroutine simulation state.
	{"runtime2.go", "\tbubble  *synctestBubble\n", "\tbubble  *synctestBubble\n\tsimid   uint32\n\tsimsite uint32\n\tsimpri  uint32\n\tsimhold uint32\n"},
	{"proc.go", "\tnewg.bubble = callergp.bubble\n", "\tnewg.bubble = callergp.bubble\n\t\tnewg.simid = 0\n"},
	// Blocking on a mutex or semaphore is durable: the simulated clock moves on
	// and a deadlock is noticed.
	{"runtime2.go", "\twaitReasonSyncCondWait:          true,\n\twaitReasonSynctestWaitGroupWait: true,\n",
		"\twaitReasonSyncCondWait:          true,\n\twaitReasonSynctestWaitGroupWait: true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSemacquire: true,\n"},
	{"sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif simInRun() {\n\t\treturn getg().bubble.now\n\t}\n"},
	// Selects.
	{"select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tpollorder[norder] = pollorder[j]\n\t\tpollorder[j] = uint16(i)\n\t\tnorder++\n\t}\n",
		"\t\tif simInRun() {\n\t\t\tpollorder[norder] = uint16(i)\n\t\t\tnorder++\n\t\t\tcontinue\n\t\t}\n\t\tj := cheaprandn(uint32(norder + 1))\n\t\tpollorder[norder] = pollorder[j]\n\t\tpollorder[j] = uint16(i)\n\t\tnorder++\n\t}\n\tif r := simSelect(norder); r > 0 {\n\t\tfor ; r > 0; r-- {\n\t\t\tfirst := pollorder[0]\n\t\t\tcopy(pollorder[:norder-1], pollorder[1:norder])\n\t\t\tpollorder[norder-1] = first\n\t\t}\n\t}\n"},
	// The children of a context are kept in a map with pointers as keys, whose
	// order depends on addresses once there are more than eight.
	{"context/context.go", "\tchildren map[canceler]struct{} // set to nil by the first cancel call\n", "\tchildren map[canceler]struct{} // set to nil by the first cancel call\n\tordered  []canceler\n"},
	{"context/context.go", "\t\t\tp.children[child] = struct{}{}\n", "\t\t\tp.children[child] = struct{}{}\n\t\t\tif len(p.ordered) > 2*len(p.children)+8 {\n\t\t\t\tkept := p.ordered[:0]\n\t\t\t\tfor _, c := range p.ordered {\n\t\t\t\t\tif _, ok := p.children[c]; ok {\n\t\t\t\t\t\tkept = append(kept, c)\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tclear(p.ordered[len(kept):])\n\t\t\t\tp.ordered = kept\n\t\t\t}\n\t\t\tp.ordered = append(p.ordered, child)\n"},
	{"context/context.go", "\tfor child := range c.children {\n", "\tfor _, child := range c.ordered {\n\t\tif _, ok := c.children[child]; !ok {\n\t\t\tcontinue\n\t\t}\n"},
	{"context/context.go", "\tc.children = nil\n", "\tc.children = nil\n\tc.ordered = nil\n"},
	// Run queues.
	{"proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simPut(gp) {\n\t\treturn\n\t}\n"},
	{"proc.go", "func globrunqput(gp *g) {\n", "func globrunqput(gp *g) {\n\tif simPut(gp) {\n\t\treturn\n\t}\n"},
	{"proc.go", "func globrunqputhead(gp *g) {\n", "func globrunqputhead(gp *g) {\n\tif simPut(gp) {\n\t\treturn\n\t}\n"},
	{"proc.go", "\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n", "\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\tif sim.on {\n\t\tif gp := simPick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n"},
	{"proc.go", "\tdropg()\n\tif preempted && sched.gcwaiting.Load() {\n", "\tif preempted && sim.on && gp.bubble != nil {\n\t\tsim.resume.set(gp)\n\t}\n\tdropg()\n\tif preempted && sched.gcwaiting.Load() {\n"},
	// No time-based preemption.
	{"proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif sim.on {\n\t\treturn 0\n\t}\n"},
}
