// The kqueue backend.
#[path = "bsd.rs"]
mod bsd;
#[path = "c03.rs"]
mod c03;
#[path = "c06.rs"]
mod c06;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c09.rs"]
mod c09;
#[path = "c10.rs"]
mod c10;
#[path = "c12.rs"]
mod c12;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c17.rs"]
mod c17;
#[path = "c21.rs"]
mod c21;

//# fn=bsd_events covers=event configs=kqueue,kqueue-pipe | one source, any key, interest, mode and conditions of {readable, writable, error, hang-up, end of file}: one wait
//# fn=bsd_modes covers=reported;again configs=kqueue,kqueue-pipe cost=10 | one source, every mode, every history of 4 steps (ready or not, for reading or writing; modify; wait)
//# fn=bsd_modes_deep configs=kqueue,kqueue-pipe tier=thorough cost=100 | the same with 6 steps
//# fn=bsd_history covers=twice;modified;deleted configs=kqueue,kqueue-pipe cost=10 | two sources, one with any mode and one level-triggered, every history of 3 operations (add, modify, delete, each with any interest; wait), then two waits
//# fn=bsd_history_deep configs=kqueue,kqueue-pipe tier=thorough cost=100 | the same with 4 operations
//# fn=bsd_failures covers=add;afterwards;wait;modify configs=kqueue,kqueue-pipe cost=5 | add, add again, wait, modify, of which any two fail
//# fn=bsd_new covers=new;failed configs=kqueue,kqueue-pipe | any 2 failures of the system calls of Poller::new()
//# fn=bsd_signal covers=fired configs=kqueue cost=5 | a signal filter: every history of 5 operations (add, modify, delete, signal, wait) in any mode
//# fn=bsd_process covers=fired configs=kqueue cost=5 | a process filter for any operation: every history of 4 steps
//# fn=bsd_others covers=both configs=kqueue | a signal and a process filter: what happens to others is not reported
//# fn=bsd_timer covers=modified configs=kqueue | a timer filter with any timeout below 2^40 s, set again with any other or not
//# fn=c03_internal covers=notified;timeout configs=kqueue,kqueue-pipe | notifications and timeouts (every duration below 12 days) around an I/O event: nothing but the user's event is visible
//# fn=c06_idle covers=zero;sleeps configs=kqueue,kqueue-pipe | every Duration as timeout, every clock value below 2^40 s; nothing happens during the wait
//# fn=c06_event covers=event;timeout configs=kqueue,kqueue-pipe | a source becomes ready at any moment relative to any timeout below 2^40 s
//# fn=c06_none covers=event configs=kqueue,kqueue-pipe | no timeout; a source becomes ready after any time below 2^40 s, with any timed wait before
//# fn=c06_twice covers=second configs=kqueue,kqueue-pipe | two waits in a row with any timeouts, the first ended by an event at any time or not: the second lasts its own timeout
//# fn=c06_slow covers=timeout configs=kqueue,kqueue-pipe | any delays inside wait() (at the first 5 moments it reads the clock) and any delay of the wake-up: never early
//# fn=c06_disturbed covers=timeout configs=kqueue,kqueue-pipe | any timeout below 1 s, in every schedule with another thread that adds, modifies or deletes a source once at any moment of the wait, and with a signal: the wait lasts its timeout
//# fn=c07_notified covers=woken configs=kqueue,kqueue-pipe | notify() before the wait and a signal pending: the wait returns at once, whatever its timeout
//# fn=c07_race covers=woken configs=kqueue,kqueue-pipe | every schedule of wait() against notify() with up to 2 signals: the notification is not lost
//# fn=c07_race_event covers=event configs=kqueue,kqueue-pipe | every schedule of wait() against a source that becomes ready with up to 2 signals: exactly one event
//# fn=c08_timeout covers=woken configs=kqueue,kqueue-pipe | a pending notification and any timeout or none: the wait does not sleep; the next wait with any timeout sleeps for all of it
//# fn=c08_race covers=woken configs=kqueue,kqueue-pipe | every schedule of a thread that sets a flag and notifies once against a thread that waits without a timeout until it sees the flag
//# fn=c08_thrice covers=woken configs=kqueue,kqueue-pipe | the same with three notifications in a row
//# fn=c08_handshake covers=woken configs=kqueue,kqueue-pipe | three rounds in which each side waits for the other: every schedule
//# fn=c08_two covers=woken configs=kqueue,kqueue-pipe | two threads that each set a flag and notify, a third that waits for both
//# fn=c08_two_twice covers=woken configs=kqueue,kqueue-pipe | two threads with two notifications each
//# fn=c08_timed covers=woken configs=kqueue,kqueue-pipe | waits with a timeout that may expire at any moment of the schedule: a notification made afterwards is seen, one made before does not linger
//# fn=c08_source covers=both configs=kqueue,kqueue-pipe | a notification and a source that becomes ready, in every schedule with a waiting thread: neither is lost
//# fn=c08_source_small covers=both configs=kqueue,kqueue-pipe | the same with a container for one event
//# fn=c08_change covers=woken configs=kqueue,kqueue-pipe | a notification and an add, modify or delete by another thread, in every schedule with a waiting thread: the notification is not lost
//# fn=c08_before_wait covers=woken configs=kqueue,kqueue-pipe | notifications by two threads that are over before the wait begins
//# fn=c08_all covers=both configs=kqueue,kqueue-pipe | a notification, a source that becomes ready and an add, modify or delete of another one by three threads, in every schedule with a fourth that waits: nothing is lost
//# fn=c09_add covers=event configs=kqueue,kqueue-pipe | a ready source is added by another thread, in every schedule with a thread that waits without a timeout: the event is delivered, exactly once
//# fn=c09_add_late covers=event configs=kqueue,kqueue-pipe | the same with a source that becomes ready after it was added
//# fn=c09_modify covers=event configs=kqueue,kqueue-pipe | the interest in a ready source is changed by another thread so that it counts, in every schedule with a waiting thread
//# fn=c09_rearm covers=three configs=kqueue,kqueue-pipe | a one-shot source is re-armed by another thread twice while the first waits: delivered once per arming, with the key of that arming
//# fn=c09_delete covers=deleted;before configs=kqueue,kqueue-pipe | a source is deleted by another thread, in every schedule with a waiting thread: the call returns, and no wait that begins afterwards reports the source
//# fn=c09_rename covers=old;new configs=kqueue,kqueue-pipe | the key of a ready level-triggered source is changed by another thread: no wait that begins after modify() returned reports the old key, none before it the new one
//# fn=c09_two covers=both configs=kqueue,kqueue-pipe | two threads add a ready source each while a third waits: both are delivered
//# fn=c09_same covers=one;gone configs=kqueue,kqueue-pipe | two threads add and a third deletes the same source, with a waiting thread: one of the orders of the calls explains all results
//# fn=c09_churn covers=done configs=kqueue,kqueue-pipe | two threads add, modify and delete a source each while a third waits: every call returns and succeeds
//# fn=c09_undisturbed covers=event configs=kqueue,kqueue-pipe | a source that becomes ready while another one is added: the operation does not make the waiting thread miss it
//# fn=c09_swap covers=event configs=kqueue,kqueue-pipe | three sources, any one of which is deleted by another thread while the others become ready in any schedule with a waiting thread: these are delivered, with their keys, once
//# fn=c09_recycle covers=new;old configs=kqueue,kqueue-pipe | a source is deleted and closed and its number used for another one by a second thread, in every schedule with a waiting thread: only the new one is reported from then on
//# fn=c09_interest covers=before;after configs=kqueue,kqueue-pipe | the interest in a ready level-triggered source is removed and another one given by a second thread, in every schedule with a waiting thread: what is reported is what was asked for
//# fn=c10_two covers=contended configs=kqueue,kqueue-pipe | two threads wait without a timeout for the same source, which becomes ready only after one of them returned empty-handed: that one returns at once, the other gets the event
//# fn=c10_three covers=contended configs=kqueue,kqueue-pipe | one event for the first of three threads; the other two return
//# fn=c10_timed covers=empty;event configs=kqueue,kqueue-pipe | one thread waits without a timeout, another with any of {0, 1 ns, 999 us, 10 s}: if the second finds the first waiting it returns at once, empty-handed
//# fn=c10_drain covers=all configs=kqueue,kqueue-pipe | two threads call wait() twice each for three ready one-shot sources: none is reported twice or with another key, and nothing is lost
//# fn=c10_notify covers=woken configs=kqueue,kqueue-pipe | a notification while two threads call wait(): the one that waits is woken
//# fn=c10_again covers=second configs=kqueue,kqueue-pipe | after a contended wait the poller can be waited on again, by either thread
//# fn=c10_operate covers=contended configs=kqueue,kqueue-pipe | two threads that wait as in c10_two and a third that adds and deletes another source: its calls return, and one waiter gets the event
//# fn=c12_history covers=dropped configs=kqueue,kqueue-pipe | every history of 4 steps out of {add, add, delete, notify, sources ready, wait} with any modes, on the usual and the fallback notifier and timer, then drop
//# fn=c12_two covers=dropped configs=kqueue,kqueue-pipe | two pollers with the same source, dropped in either order: the other one keeps working
//# fn=c12_closed covers=dropped configs=kqueue,kqueue-pipe | the user closes a registered source before the poller is dropped
//# fn=c12_threads covers=dropped configs=kqueue,kqueue-pipe | dropped after two threads used it, in every schedule
//# fn=c14_many covers=many configs=kqueue,kqueue-pipe | 6 notifications in a row into a channel that holds a single one: no call fails or blocks, one wait() consumes them all
//# fn=c14_threads covers=empty configs=kqueue,kqueue-pipe | two threads notify twice each while a third calls wait() twice, with room for 4 wake-ups: nobody blocks, two more waits empty the channel
//# fn=c15_batches covers=full;batches configs=kqueue,kqueue-pipe | three one-shot or edge-triggered sources of which any are ready, a container for 1, 2 or 3 events: never more than fit, every event in one of the next waits, each exactly once
//# fn=c15_timer covers=all configs=kqueue,kqueue-pipe | three ready sources, a container for one event and a timeout that the kernel's timer reaches: neither the events nor the time-out are lost
//# fn=c15_container covers=empty;filled configs=kqueue,kqueue-pipe | the container itself: length, iteration, emptiness and capacity agree before and after any wait and after clear()
//# fn=c15_reuse covers=second configs=kqueue,kqueue-pipe | one container cleared and used again, with another poller too: it shows the events of the last wait only
//# fn=c17_any covers=done configs=kqueue,kqueue-pipe | every history of 3 calls with any arguments: any key, interest, mode, any of two sources, an internal or a closed descriptor, any timeout at all, any conditions, container cleared or not
//# fn=c17_timeouts covers=sleeps;huge configs=kqueue,kqueue-pipe | any timeout a Duration can hold, any time of the clock from 0 to 2^62 s since boot, with or without a notification pending: no panic, never early
//# fn=c21_threads covers=done configs=kqueue,kqueue-pipe | one thread waits on each of two pollers without a timeout, a third one notifies both, in either order: every schedule
//# fn=c21_busy covers=done configs=kqueue,kqueue-pipe | while one thread waits on a poller without a timeout, another poller is used in every way and behaves as if it were alone: every schedule
//# fn=c21_drop covers=done configs=kqueue,kqueue-pipe | a poller is dropped while a thread waits on another one that watches the same source, which then becomes ready: every schedule
//# fn=c09_history covers=both;none configs=kqueue,kqueue-pipe | every history of 3 operations on two sources by one thread, in every schedule with a waiting thread: all calls succeed or fail as without it and return
//# fn=c13_refused covers=refused configs=kqueue,kqueue-pipe | descriptors the system refuses: a regular file, a closed one, any number that was never opened
//# fn=c14_history covers=emptied configs=kqueue,kqueue-pipe | every history of 8 steps out of {notify, add/delete, modify, wait with timeout zero, with a timeout}: after every step at most one wake-up is left in the channel, after every wait none (so none ever accumulate)
//# fn=c14_threads_operate covers=empty configs=kqueue,kqueue-pipe | the same with one of the threads adding and deleting a source
