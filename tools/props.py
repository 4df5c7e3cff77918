import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":observe,"hook_needed":None}})
E,PL,L="src/epoll.rs","src/poll.rs","src/lib.rs"
prop("C01","A delivered event describes exactly what happened to the source",
 "Whatever combination of input, output, priority, error and hang-up conditions a registered source is in, and whatever the interest, the event delivered for it carries the key of the registration; readable and writable are set exactly when the source is readable or writable in the requested direction or has failed or hung up, and is_priority(), is_interrupt() and is_err() are true exactly for the conditions present. An event is delivered whenever a requested condition, an error or a hang-up is present, and none is delivered when nothing relevant is.",
 ["inputs","configurations"],"every key except usize::MAX, every interest with every combination of extra flags, every delivery mode, every 16-bit set of conditions the kernel can report, one or two sources, all three Linux configurations",
 "Tests drive a handful of sockets through readable/writable; conditions such as PRI, ERR and HUP in combination, and full-range keys, are never produced.",
 [E,PL,L],[("conversion of kernel events to Event","src/epoll.rs Events::iter, src/poll.rs Poller::wait"),("read_flags/write_flags, read_events/write_events","src/epoll.rs, src/poll.rs"),("EventExtra","src/epoll.rs, src/poll.rs")],["Poller::wait","Events::iter","Event accessors"])
prop("C02","The registered interest is exactly what the caller asked for",
 "After add() or modify() (with or without a mode) a source is reported if and only if one of the conditions of the interest given last, or an error or hang-up, is present; interest given earlier has no effect any more. This includes the default mode being one-shot, and a descriptor number that is used again for another source after delete().",
 ["inputs","histories","configurations"],"every pair of interests and modes, every key, every condition set before and after the change",
 "Tests change interest between a few fixed values and only with conditions that sockets happen to have.",
 [E,PL,L],[("epoll_flags","src/epoll.rs"),("poll_events","src/poll.rs"),("add_with_mode/modify_with_mode","src/lib.rs")],["Poller::add","Poller::modify","Poller::wait"])
prop("C03","The reserved key is refused and internal wake-ups are never visible",
 "add() and modify() refuse the key usize::MAX in every mode without changing anything, and accept every other key. No event with that key is ever visible through the iterator, len(), is_empty() or the count returned by wait(), whatever notifications, timeouts and events coincide.",
 ["inputs","histories","configurations"],"all 2^64 keys, all interests, modes and conditions, all combinations of pending notification, expired timeout and ready source",
 "One test tries the single reserved key with add(); no test looks at a wait in which notification, timer and event coincide.",
 [L,E,PL],[("NOTIFY_KEY checks","src/lib.rs"),("filter in Events::iter and len","src/lib.rs")],["Poller::add","Poller::modify","Poller::wait","Events::iter","Events::len"])
prop("C04","Each delivery mode delivers exactly as often as documented",
 "In one-shot mode a source is delivered once per arming (add or modify) and not again until modified, even if it stays or becomes ready, hangs up or fails; in level mode it is delivered by every wait for as long as it is ready; in edge mode once per new readiness; in edge-one-shot mode once per arming and new readiness. This holds in any history of arming, mode changes, readiness changes and waits, for several sources independently.",
 ["histories","inputs","configurations"],"every history up to the step bound of arming in any mode, gaining and losing conditions, and waits, for one and two sources",
 "Tests check each mode on one fixed script with one socket.",
 [E,PL],[("epoll_flags (ONESHOT, ET)","src/epoll.rs"),("FdData::remove and the replacement of reported entries","src/poll.rs Poller::wait")],["Poller::wait","Poller::modify_with_mode"],[("fds.poll_fds, fds.fd_data","what is polled and how it is reported","src/poll.rs")])
prop("C05","Registrations behave like a map; failed calls change nothing",
 "In every history of add, modify and delete, add() succeeds exactly for sources that are not registered (otherwise AlreadyExists), modify() and delete() exactly for those that are (otherwise NotFound), and wait() reports exactly the registered sources with their latest keys and interests. A call that returns an error, for instance because the mode is not supported, leaves all registrations as they were, and supports_level()/supports_edge() tell which modes work.",
 ["histories","inputs","configurations"],"every history up to the step bound over two and three sources with arbitrary keys, interests and modes, in particular every order of deletions",
 "Tests add and delete one or two sockets in one order; index bookkeeping errors show only for particular orders with three or more sources.",
 [PL,E,L],[("fd_data / poll_fds index bookkeeping with swap_remove","src/poll.rs Poller::delete"),("error kinds","src/poll.rs, src/epoll.rs")],["results of add/modify/delete","Poller::wait"],[("fd_data, poll_fds","map from descriptor to index, key, mode; must stay consistent","src/poll.rs")])
prop("C06","wait() honours its timeout exactly",
 "Without events or notifications, wait() with a timeout returns an empty list not before the timeout has elapsed and, if the system is not late, less than a millisecond after; with no timeout it returns only for an event or notification; with a zero timeout it never sleeps. A source that becomes ready during the wait ends it at that moment, and a timeout of one wait has no effect on the next.",
 ["inputs","schedules","fault_sequences","configurations"],"every timeout below 2^40 s with nanosecond resolution, every moment at which a source becomes ready, arbitrary scheduling delays, with and without a timer descriptor (poll time-outs beyond i32::MAX ms may be split)",
 "Tests sleep for a few durations and compare with a tolerance; rounding, overflow and left-over timers need particular values.",
 [L,E,PL],[("deadline computation","src/lib.rs Poller::wait"),("timerfd set-up, conversion to milliseconds","src/epoll.rs Poller::wait"),("rounding to milliseconds","src/poll.rs Poller::wait")],["Poller::wait duration and result"])
prop("C07","Signals that interrupt a wait are invisible to the caller",
 "However many signals interrupt the system calls of a wait(), and whenever they do, wait() does not fail, returns neither early nor later than its original timeout, and delivers each event that occurs exactly once and nothing left over from before. Notifications are not lost through an interruption.",
 ["fault_sequences","schedules","inputs"],"up to 3 interruptions at any moment, any timeout below 2^40 s or none, any moment for the event, every schedule of one notifier or one source with the interrupted waiter",
 "No test delivers a signal during a wait.",
 [L,E,PL],[("retry on ErrorKind::Interrupted with the same deadline","src/lib.rs Poller::wait")],["Poller::wait"])
prop("C08","No notification is ever lost, and none is seen twice",
 "A notify() that returns ends the wait() in progress or makes the next one return without sleeping, in every schedule with waits, other notifications, sources becoming ready and concurrent add/modify/delete. Any number of notifications before a wait are consumed by that one wait, after which waits sleep again, and no call fails because of the race.",
 ["schedules","histories","configurations"],"every interleaving of up to 3 threads at synchronisation points and system calls, and every sequential history up to the step bound",
 "Tests run one or two schedules; the windows between setting a flag, writing to the channel and draining it are a few instructions wide.",
 [L,E,PL],[("notified flag","src/lib.rs Poller::notify/wait"),("Notifier","src/epoll.rs"),("notified, notify pipe, operations_complete","src/poll.rs")],["Poller::notify","Poller::wait"],[("notified","a notification is on its way","src/lib.rs, src/poll.rs")])
prop("C09","Registrations can be changed while another thread waits",
 "add(), modify() and delete() called while another thread is in wait() return without waiting for it to end, and take effect for that very wait: a source added or re-armed is delivered if ready, exactly once in one-shot mode. After delete() or modify() has returned, no wait() that begins later reports the deleted source or the old key, and concurrent operations have the results of some order of the calls.",
 ["schedules","histories"],"every interleaving of one waiter with one to three threads that operate, on the same or different sources, up to three operations each",
 "Tests exercise one timing of add-during-wait; the poll backend's hand-over of its lock has many more.",
 [PL,E,L],[("modify_fds, waiting_operations, operations_complete","src/poll.rs"),("epoll_ctl during epoll_wait","src/epoll.rs")],["results and termination of operations","Poller::wait"],[("waiting_operations","operations that want the lock","src/poll.rs")])
prop("C10","Only one thread waits; the others return at once",
 "When several threads call wait(), one of them waits and every other call made meanwhile returns immediately with no events, whatever its timeout. Each event of a one-shot source is delivered to exactly one caller, and afterwards any thread can wait again.",
 ["schedules"],"every interleaving of two and three threads that call wait() with and without timeouts, with events and notifications arriving at any point",
 "One test starts two waiters with a sleep in between, which fixes the schedule.",
 [L],[("lock.try_lock()","src/lib.rs Poller::wait")],["Poller::wait"],[("lock","held while waiting","src/lib.rs")])
prop("C11","Poller::new() works around missing facilities or fails cleanly",
 "Whichever system calls fail during Poller::new(), it either returns an error with every descriptor closed again, or a poller that works in full: notifications, timeouts and events, with all descriptors closed on exec. It does not fail just because event or timer descriptors, or creating a pipe with flags, are not available.",
 ["fault_sequences","configurations"],"every combination of up to 3 failing calls with every errno they document, every limit on open descriptors from 0 to 6",
 "Tests only run where every call succeeds; the fallbacks are compiled but never executed.",
 [E,PL],[("Notifier::new fallbacks","src/epoll.rs"),("timer_fd: Option","src/epoll.rs Poller::new"),("notify::Notify::new","src/poll.rs")],["Poller::new","descriptor table","Poller::wait"])
prop("C12","Dropping a poller releases exactly what it owns",
 "Dropping a poller after any history closes each of its descriptors exactly once, never one that belongs to the user or to another poller, and does not block. Sources stay open and usable with other pollers.",
 ["histories","schedules","configurations"],"every history up to the step bound of add, delete, notify, wait with any modes, usual and fallback facilities, two pollers sharing a source",
 "Tests never look at the descriptor table.",
 [E,PL],[("OwnedFd fields, Drop for Poller","src/epoll.rs"),("notify::Notify","src/poll.rs")],["descriptor table","close()"])
prop("C13","Failures of the system are reported and leave the poller intact",
 "If a system call behind add(), modify(), delete() or wait() fails, the caller gets that error, registrations are as before the call, no events are delivered and none are lost. The poller remains usable: the next calls, notifications and events work as if the failed call had not been made, and unusable descriptors are refused.",
 ["fault_sequences","histories","inputs"],"every history up to the step bound with up to 2 failures at any operation, every refused kind of descriptor, any descriptor number",
 "Tests run where no such call fails.",
 [E,PL,L],[("error propagation with ?","src/epoll.rs, src/poll.rs"),("modify_fds","src/poll.rs"),("lock guard","src/lib.rs Poller::wait")],["results","later waits"])
prop("C14","The wake-up channel never fills up and never blocks a caller",
 "notify(), add(), modify() and delete() never block and never fail for want of room in the wake-up channel, however often they are called and whether or not anybody waits. At most one wake-up per thread is under way at any time, and none is left once a wait has followed.",
 ["histories","schedules"],"every history up to the step bound over a channel with room for one or two wake-ups, every schedule of three threads with room for four; the channel is empty again at the end of each cycle, so longer histories add nothing",
 "Filling a real pipe takes 65536 calls and particular timings.",
 [L,E,PL],[("notified flag","src/lib.rs, src/poll.rs"),("Notifier::clear","src/epoll.rs"),("pop_notification/pop_all_notifications","src/poll.rs")],["Poller::notify","fill level of the channel"])
prop("C15","Limited containers delay events but never lose or repeat them",
 "wait() never delivers more events than the container has room for; ready sources that do not fit are delivered by the following waits, each exactly once in one-shot and edge mode, also when notifications and time-outs compete for the room. len(), is_empty(), iter() and capacity() agree with one another and with the count returned, and a cleared container shows only the events of the next wait.",
 ["inputs","histories","configurations"],"every subset of three ready sources, capacities 1 to 4, with and without a pending notification and an expiring timer",
 "Tests use the default capacity of 1024.",
 [L,E,PL],[("Events","src/lib.rs, src/epoll.rs, src/poll.rs")],["Poller::wait","Events"])
prop("C16","Event values can be built, compared and stripped faithfully",
 "The constructors and setters of Event set exactly what they name and setting one flag never disturbs another; two events are equal exactly if key, readable, writable and the extra flags are. clear_extra() and with_no_extra() remove the extra information and nothing else, from interests as well as from delivered events.",
 ["inputs"],"every key, every combination of the flags, every pair of events, every event delivered for any conditions",
 "Tests compare a few events with fixed keys.",
 [L,E,PL],[("Event","src/lib.rs"),("EventExtra","src/epoll.rs, src/poll.rs")],["Event methods"])
prop("C17","No call panics or misbehaves, whatever its arguments",
 "No sequence of calls panics, overflows or touches memory it should not: any key, interest, mode, descriptor (internal, closed or never opened), any timeout up to Duration::MAX at any time of the clock, any conditions, containers cleared or not. Whenever wait() succeeds, its count is the number of visible events.",
 ["inputs","histories"],"every sequence of calls up to the bound with unconstrained arguments",
 "Tests pass only sensible arguments.",
 [L,E,PL],[("checked and saturating arithmetic","src/lib.rs, src/epoll.rs, src/poll.rs"),("unsafe code around descriptors","src/epoll.rs, src/poll.rs")],["all calls"])
prop("C18","A poller's own descriptor tells whether it has something to report",
 "On epoll the poller's own descriptor (as_fd(), as_raw_fd()) is readable while a wait would return at once with an event or because of a notification, and no longer once these have been taken or the source is deleted (the timeout of an earlier wait that ended early may make it readable once more). It can therefore be registered with another poller, which reports it with its key.",
 ["inputs","histories"],"every interest, mode and condition set of one source, notifications before and after waits with any timeout, one poller nested in another",
 "One test prints the descriptor; none polls it.",
 [E,L],[("AsRawFd/AsFd for Poller","src/epoll.rs, src/lib.rs"),("disarming of the timer and clearing of the notifier","src/epoll.rs Poller::wait")],["Poller::as_fd","Poller::as_raw_fd","Poller::wait of another poller"])
prop("C19","The kqueue backend gives the same guarantees",
 "On the BSDs and Apple systems each direction of a source is delivered with the key of the registration whenever it is requested and ready: once per arming in one-shot mode, once per change in edge mode, for as long as it lasts in level mode, and an interest without a direction delivers nothing. Filters for signals, processes and timers behave alike. Registrations, timeouts, notifications, failures, concurrent use and dropping obey what C03 to C17 say, whether notifications go through a user event or a pipe.",
 ["inputs","histories","schedules","fault_sequences","configurations"],"every history up to the step bound over one or two sources with any interest, mode and conditions; every failure of up to 2 system calls; every interleaving of up to 3 threads; any timeout below 2^40 s",
 "The tests of this backend need a BSD or Apple system; on Linux it is not even compiled.",
 ["src/kqueue.rs","src/os/kqueue.rs",L],[("add, modify, delete, wait","src/kqueue.rs Poller"),("set of sources","src/kqueue.rs with_sources"),("notify","src/kqueue.rs mod notify"),("filters","src/os/kqueue.rs")],["Poller","PollerKqueueExt"],[("sources","what is registered","src/kqueue.rs")])
prop("C20","The number of sources, notifications, signals and rounds changes nothing",
 "However many sources are registered or ready at once, however many notifications or signals come, and however long a poller has been in use, every other guarantee holds as it does for a few: each ready source is delivered exactly once per arming with its own key, by as many waits as the container's room requires, any number of notifications before a wait end that wait and no later one, and any number of signals during a wait leave its timeout as it was.",
 ["inputs","histories"],"70 sources of which any is deleted, renamed or not ready and any room from 1 to 70; 1100 sources and the default container; any number of notifications or signals up to 300; 300 rounds of mixed use, any of several of which differs",
 "Tests use two or three sources and a handful of calls.",
 [L,E,PL],[("event buffers and capacity","src/lib.rs Events, src/epoll.rs, src/poll.rs"),("retry after EINTR","src/lib.rs Poller::wait"),("bookkeeping of poll_fds and fd_data","src/poll.rs"),("notified flag and Notifier::clear","src/lib.rs, src/epoll.rs")],["Poller::wait","Events","Poller::notify"])
prop("C21","Pollers are independent of one another",
 "Whatever is done with one poller (notifications, arming, deleting, waiting in another thread, dropping it) neither ends, delays nor blocks a call on another poller, nor changes what that one has to report, even if both watch the same source: each reports it with its own key and by its own arming, and a source can be registered with any number of pollers.",
 ["histories","schedules"],"every history up to the step bound of two pollers that share a source, followed by the end of either; every schedule of up to three threads with two pollers",
 "Tests use one poller at a time.",
 [L,E,PL],[("state of a poller","src/lib.rs Poller, src/epoll.rs Poller, src/poll.rs Poller"),("drop","src/epoll.rs, src/poll.rs")],["Poller::wait","Poller::notify","Poller::add","drop"])
prop("C22","The event port backend gives the same guarantees",
 "On illumos and Solaris every requested condition of a registered source, and every error or hang-up, is delivered once per arming with the key of the last add() or modify(); every other mode is refused with Unsupported and changes nothing. Timeouts, notifications, failures, concurrent use, containers and dropping obey what C06 to C17 say.",
 ["inputs","histories","schedules","fault_sequences"],"every history up to the step bound over one or two sources with any interest and conditions; every failure of up to 2 system calls; every interleaving of up to 3 threads; any timeout below 2^40 s",
 "The tests of this backend need an illumos or Solaris system; on Linux it is not even compiled.",
 ["src/port.rs",L],[("add, modify, delete, wait","src/port.rs Poller"),("notify","src/port.rs Poller::notify")],["Poller"])
prop("C23","The IOCP backend gives the same guarantees",
 "On Windows events, modes, registrations of sockets and of waitable handles, posted packets, timeouts, notifications and concurrent use obey the guarantees stated for Linux, within the documented differences.",
 ["inputs","histories","schedules","configurations"],"the quantifiers of C01 to C17 on the IOCP backend",
 "The tests of this backend need Windows.",
 ["src/iocp/mod.rs","src/iocp/afd.rs","src/iocp/port.rs","src/os/iocp.rs"],[("packets and sources","src/iocp/mod.rs"),("AFD polls","src/iocp/afd.rs"),("completion port","src/iocp/port.rs")],["Poller"])
prop("C24","A poller accepts exactly the modes it claims, for any form of source",
 "One-shot mode is always accepted; level and edge modes exactly if supports_level() and supports_edge() say so, and these never change. An accepted mode takes effect as its documentation says, for each source independently; any other fails with Unsupported and leaves everything as it was. A source may be given as a number, a reference, a borrowed descriptor or by value, in a different form in each call, and its descriptor may have any number.",
 ["inputs","configurations"],"every key, every pair of modes of add_with_mode() and modify_with_mode(), fired or not, two sources in any two modes, every form of source in each of three calls",
 "Tests try one mode per test on the backend at hand and never check that the unsupported ones are refused without an effect.",
 [L,E,PL,"src/kqueue.rs","src/port.rs"],[("supports_level, supports_edge","src/lib.rs, src/epoll.rs, src/poll.rs, src/kqueue.rs, src/port.rs"),("AsRawSource, AsSource","src/lib.rs"),("conversion of the mode","src/epoll.rs epoll_flags, src/poll.rs cvt_mode_as_remove")],["Poller::supports_level","Poller::supports_edge","Poller::add_with_mode","Poller::modify_with_mode"])
prop("C25","All features together behave as the documented model says",
 "In every history that mixes add(), modify() to any mode and interest, delete(), changing conditions of the sources, notify() and wait() with any room in the container, each call succeeds or fails, each wait sleeps or not, and each event is delivered or not, with its key and its flags, exactly as a model of a few lines predicts from the documentation. No feature changes the meaning of another one.",
 ["histories","inputs","configurations"],"two sources, one in any mode, containers for one or two events, every history of 3 (4) operations followed by two waits and a full use of the poller",
 "Tests exercise each feature by itself; a notification that comes between the arming and the delivery of a one-shot source, with a full container and after a change of mode, is one of millions of combinations.",
 [L,E,PL],[("wait, events, notified flag","src/lib.rs"),("registrations and modes","src/epoll.rs, src/poll.rs")],["all calls"])
prop("C26","The systems that use epoll or poll() in a way of their own get the same guarantees",
 "On Redox (epoll without eventfd and timerfd), Haiku (a pipe without pipe2), Vita (bytes written to a pipe may arrive later) and ESP-IDF (an eventfd whose read never fails) the code that is compiled for that system keeps the guarantees of the other properties: events, modes, timeouts, notifications, operations during a wait, contended waits, failures and dropping. No operation blocks or is lost because of the system's notifier.",
 ["inputs","schedules","histories","faults"],"the harnesses of C01-C21 listed in the evidence, for each of the four systems",
 "The tests run on Linux: this code is not even compiled by them, and what is wrong with a notifier shows only in certain interleavings of a wait with an operation.",
 [E,PL],[("redox variants","src/epoll.rs"),("notify modules","src/poll.rs")],["add/modify/delete","wait","notify"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
