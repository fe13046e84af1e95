// controller: the process id file, and stopping the recorded process

logic errtext(Int) Seq
extern (error).Error(e) (r)
  why the text of an error does not change
  ensures r == errtext(e)

// processes: the id a handle is for; which ids were seen to be gone; what was signalled; time spent waiting
logic procpid(Int) Int
ghost gone Arr(Int,Bool)
ghost alive Arr(Int,Bool)
ghost nsent Int
ghost sentpid Int
ghost slept Int

extern os.FindProcess(pid) (p, err)
  why on Unix a handle for that id, and no error
  ensures err == nil && p != nil && procpid(ref(p)) == pid
extern (*os.Process).Signal(p, sig) (err)
  why signals the process the handle is for
  requires p != nil
  requires stop: sig == tracker.SigStop
  modifies ghost nsent, ghost sentpid
  ensures nsent == old(nsent) + 1 && sentpid == procpid(ref(p))
extern syscall.Kill(pid, sig) (err)
  why signal 0 only asks: no error means the process exists, "no such process" that it does not
  requires only_asks: sig == 0
  modifies ghost gone, ghost alive
  ensures gone == upd(old(gone), pid, err != nil && errtext(err) == "no such process")
  ensures alive == upd(old(alive), pid, err == nil)
extern time.Sleep(d)
  why lets d pass
  modifies ghost slept
  ensures slept == old(slept) + max(d, 0)
extern fmt.Print(v) (n, err)
  why prints
extern fmt.Println(v) (n, err)
  why prints

define pidText(f) = sel(fsdata, f.path)

func (*controller.ProcessIDFile).Read(f) (id, err)
  props C01
  requires f != nil
  ensures read: err == nil ==> atoiok(pidText(f)) && id == atoi(pidText(f))
  ensures failed: err != nil ==> id == 0-1
  ensures why: err == nil || ioerr(err) || err == controller.ErrFileEmpty && pidText(f) == "" || err == controller.ErrParseFailed && pidText(f) != "" && !atoiok(pidText(f))

func (*controller.ProcessIDFile).Write(f, id) (err)
  props C01
  requires f != nil
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures written: err == nil ==> sel(fsdata, f.path) == itoa(id)
  ensures others: fsOnly(f.path)

func (*controller.ProcessIDFile).Clear(f) (err)
  props C01
  requires f != nil
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures cleared: err == nil ==> sel(fsdata, f.path) == ""
  ensures kept: err != nil ==> fsdata == old(fsdata)
  ensures others: fsOnly(f.path)

func (*controller.ProcessIDFile).Process(f) (p, err)
  props C01
  requires f != nil
  ensures found: err == nil ==> p != nil && atoiok(pidText(f)) && procpid(ref(p)) == atoi(pidText(f))
  ensures why: err == nil || ioerr(err) || err == controller.ErrFileEmpty && pidText(f) == "" || err == controller.ErrParseFailed && pidText(f) != "" && !atoiok(pidText(f))

define stopPid(c) = atoi(old(sel(fsdata, c.processIDFile.path)))
define second() = 1000000000

func (*controller.Controller).Stop(c) (err)
  props C01
  requires c != nil && c.processIDFile != nil
  modifies ghost fsdata, ghost fsever, ghost fssync, ghost gone, ghost alive, ghost nsent, ghost sentpid, ghost slept
  inv ?i:idx :: old(slept) <= slept && slept - old(slept) == 100000000 * ?i
  inv ?i:idx ?e:error :: ite(?i == 0, ?e == nil && alive == old(alive) && gone == old(gone), (sel(alive, stopPid(c)) <==> ?e == nil) && (sel(gone, stopPid(c)) <==> ?e != nil && errtext(?e) == "no such process"))
  ensures once: nsent <= old(nsent) + 1
  ensures signalled: nsent > old(nsent) ==> sentpid == stopPid(c)
  ensures stopped: err == nil ==> nsent == old(nsent) + 1 && sentpid == stopPid(c) && sel(gone, stopPid(c)) && sel(fsdata, c.processIDFile.path) == ""
  ensures alive: err == nil ==> !sel(alive, stopPid(c))
  ensures cleared: fsdata == old(fsdata) || sel(gone, stopPid(c))
  ensures others: fsOnly(c.processIDFile.path)
  ensures bounded: slept - old(slept) <= 11 * second()
  ensures patient: nsent > old(nsent) && err != nil && sel(alive, stopPid(c)) && !old(sel(alive, stopPid(c))) ==> slept - old(slept) >= 9 * second()

func (*controller.Controller).Clear(c) (err)
  props C01
  requires c != nil && c.processIDFile != nil
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures cleared: err == nil ==> sel(fsdata, c.processIDFile.path) == ""
  ensures others: fsOnly(c.processIDFile.path)

theorem pidRoundTrip(n int64)
  props C01
  ensures parses: atoiok(itoa(n))
  ensures same: atoi(itoa(n)) == n

globalfact pidErrors: controller.ErrFileEmpty != nil && controller.ErrParseFailed != nil && controller.ErrFileEmpty != controller.ErrParseFailed && !ioerr(controller.ErrFileEmpty) && !ioerr(controller.ErrParseFailed)
