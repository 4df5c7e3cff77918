// The event port backend.
#[path = "bsd.rs"]
mod bsd;
#[path = "c06.rs"]
mod c06;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c09.rs"]
mod c09;
#[path = "c10.rs"]
mod c10;
#[path = "c12.rs"]
mod c12;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c17.rs"]
mod c17;
#[path = "c21.rs"]
mod c21;

//# fn=bsd_events covers=event configs=port | one source, any key, interest and conditions of {readable, priority, writable, error, hang-up, end of file}: one wait
//# fn=bsd_modes covers=reported;again configs=port cost=10 | one source, every history of 4 steps (ready or not, for reading or writing; modify; wait)
//# fn=bsd_modes_deep configs=port tier=thorough cost=100 | the same with 6 steps
//# fn=bsd_history covers=modified;deleted configs=port cost=10 | two sources, every history of 4 operations (add, modify, delete, each with any interest; wait), then two waits
//# fn=bsd_history_deep configs=port tier=thorough states=12000000 cost=100 | the same with 6 operations
//# fn=bsd_failures covers=add;afterwards;wait;modify configs=port cost=5 | add, add again, wait, modify, of which any two fail
//# fn=bsd_new covers=new;failed configs=port | any 2 failures of the system calls of Poller::new()
//# fn=bsd_unsupported covers=refused configs=port | any mode but one-shot, for a source that is registered or not
//# fn=c06_idle covers=zero;sleeps configs=port | every Duration as timeout, every clock value below 2^40 s; nothing happens during the wait
//# fn=c06_event covers=event;timeout configs=port | a source becomes ready at any moment relative to any timeout below 2^40 s
//# fn=c06_none covers=event configs=port | no timeout; a source becomes ready after any time below 2^40 s, with any timed wait before
//# fn=c06_twice covers=second configs=port | two waits in a row with any timeouts, the first ended by an event at any time or not: the second lasts its own timeout
//# fn=c06_slow covers=timeout configs=port | any delays inside wait() (at the first 5 moments it reads the clock) and any delay of the wake-up: never early
//# fn=c06_disturbed covers=timeout configs=port | any timeout below 1 s, in every schedule with another thread that adds, modifies or deletes a source once at any moment of the wait, and with a signal: the wait lasts its timeout
//# fn=c07_notified covers=woken configs=port | notify() before the wait and a signal pending: the wait returns at once, whatever its timeout
//# fn=c07_race covers=woken configs=port | every schedule of wait() against notify() with up to 2 signals: the notification is not lost
//# fn=c07_race_event covers=event configs=port | every schedule of wait() against a source that becomes ready with up to 2 signals: exactly one event
//# fn=c08_timeout covers=woken configs=port | a pending notification and any timeout or none: the wait does not sleep; the next wait with any timeout sleeps for all of it
//# fn=c08_race covers=woken configs=port | every schedule of a thread that sets a flag and notifies once against a thread that waits without a timeout until it sees the flag
//# fn=c08_thrice covers=woken configs=port | the same with three notifications in a row
//# fn=c08_handshake covers=woken configs=port | three rounds in which each side waits for the other: every schedule
//# fn=c08_two covers=woken configs=port | two threads that each set a flag and notify, a third that waits for both
//# fn=c08_two_twice covers=woken configs=port | two threads with two notifications each
//# fn=c08_timed covers=woken configs=port | waits with a timeout that may expire at any moment of the schedule: a notification made afterwards is seen, one made before does not linger
//# fn=c08_source covers=both configs=port | a notification and a source that becomes ready, in every schedule with a waiting thread: neither is lost
//# fn=c08_source_small covers=both configs=port | the same with a container for one event
//# fn=c08_before_wait covers=woken configs=port | notifications by two threads that are over before the wait begins
//# fn=c09_add covers=event configs=port | a ready source is added by another thread, in every schedule with a thread that waits without a timeout: the event is delivered, exactly once
//# fn=c09_add_late covers=event configs=port | the same with a source that becomes ready after it was added
//# fn=c09_modify covers=event configs=port | the interest in a ready source is changed by another thread so that it counts, in every schedule with a waiting thread
//# fn=c09_rearm covers=three configs=port | a one-shot source is re-armed by another thread twice while the first waits: delivered once per arming, with the key of that arming
//# fn=c09_two covers=both configs=port | two threads add a ready source each while a third waits: both are delivered
//# fn=c09_churn covers=done configs=port | two threads add, modify and delete a source each while a third waits: every call returns and succeeds
//# fn=c09_undisturbed covers=event configs=port | a source that becomes ready while another one is added: the operation does not make the waiting thread miss it
//# fn=c09_swap covers=event configs=port | three sources, any one of which is deleted by another thread while the others become ready in any schedule with a waiting thread: these are delivered, with their keys, once
//# fn=c09_recycle covers=new;old configs=port | a source is deleted and closed and its number used for another one by a second thread, in every schedule with a waiting thread: only the new one is reported from then on
//# fn=c10_two covers=contended configs=port | two threads wait without a timeout for the same source, which becomes ready only after one of them returned empty-handed: that one returns at once, the other gets the event
//# fn=c10_timed covers=empty;event configs=port | one thread waits without a timeout, another with any of {0, 1 ns, 999 us, 10 s}: if the second finds the first waiting it returns at once, empty-handed
//# fn=c10_drain covers=all configs=port | two threads call wait() twice each for three ready one-shot sources: none is reported twice or with another key, and nothing is lost
//# fn=c10_notify covers=woken configs=port | a notification while two threads call wait(): the one that waits is woken
//# fn=c10_again covers=second configs=port | after a contended wait the poller can be waited on again, by either thread
//# fn=c10_operate covers=contended configs=port | two threads that wait as in c10_two and a third that adds and deletes another source: its calls return, and one waiter gets the event
//# fn=c12_history covers=dropped configs=port | every history of 4 steps out of {add, add, delete, notify, sources ready, wait} with any modes, on the usual and the fallback notifier and timer, then drop
//# fn=c12_closed covers=dropped configs=port | the user closes a registered source before the poller is dropped
//# fn=c12_threads covers=dropped configs=port | dropped after two threads used it, in every schedule
//# fn=c14_many covers=many configs=port | 6 notifications in a row into a channel that holds a single one: no call fails or blocks, one wait() consumes them all
//# fn=c14_threads covers=empty configs=port | two threads notify twice each while a third calls wait() twice, with room for 4 wake-ups: nobody blocks, two more waits empty the channel
//# fn=c15_timer covers=all configs=port | three ready sources, a container for one event and a timeout that the kernel's timer reaches: neither the events nor the time-out are lost
//# fn=c17_any covers=done configs=port | every history of 3 calls with any arguments: any key, interest, mode, any of two sources, an internal or a closed descriptor, any timeout at all, any conditions, container cleared or not
//# fn=c17_timeouts covers=sleeps;huge configs=port | any timeout a Duration can hold, any time of the clock from 0 to 2^62 s since boot, with or without a notification pending: no panic, never early
//# fn=c21_threads covers=done configs=port | one thread waits on each of two pollers without a timeout, a third one notifies both, in either order: every schedule
//# fn=c21_busy covers=done configs=port | while one thread waits on a poller without a timeout, another poller is used in every way and behaves as if it were alone: every schedule
