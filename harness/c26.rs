// Systems on which epoll and poll() are used in another way: Redox, Haiku, Vita, ESP-IDF.
#[path = "c01.rs"]
mod c01;
#[path = "c02.rs"]
mod c02;
#[path = "c03.rs"]
mod c03;
#[path = "c04.rs"]
mod c04;
#[path = "c05.rs"]
mod c05;
#[path = "c06.rs"]
mod c06;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c09.rs"]
mod c09;
#[path = "c10.rs"]
mod c10;
#[path = "c11.rs"]
mod c11;
#[path = "c12.rs"]
mod c12;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c17.rs"]
mod c17;
#[path = "c21.rs"]
mod c21;

//# fn=c01_add covers=delivered;none configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=1 | one source, every interest (readable, writable, priority, interrupt), mode, key and set of conditions; one wait()
//# fn=c02_modify covers=delivered configs=epoll-redox cost=1 | every first registration (interest, mode, extra flags), every set of conditions while it is active, optionally a wait(), then every new interest, mode and conditions: what is delivered depends on the last registration only
//# fn=c03_add covers=rejected;accepted configs=epoll-redox cost=1 | every key, interest and mode given to add() and add_with_mode()
//# fn=c03_internal covers=notified;timeout configs=epoll-redox,poll-vita,poll-espidf cost=1 | notifications and timeouts (every duration below 12 days) around an I/O event: nothing but the user's event is visible
//# fn=c03_modify covers=rejected;accepted configs=epoll-redox cost=1 | every registration, then modify()/modify_with_mode() with every key, interest and mode
//# fn=c04_one covers=delivered configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=5 | one source, every mode, every history of 4 steps (new conditions, drained, modify() with any interest and mode, wait()) followed by two waits
//# fn=c05_rejected covers=rejected configs=epoll-redox cost=1 | every registration and conditions, then one call that must be rejected: reserved key, duplicate, unsupported mode or kind of source, internal descriptor
//# fn=c05_swap configs=epoll-redox,poll-espidf cost=5 | four sources registered; every subset deleted in every order of two, then any one registered again; then two waits
//# fn=c05_two configs=epoll-redox,poll-haiku,poll-espidf cost=10 | two sources, every history of 5 operations (add, modify, delete, wait; on the poll backend in unsupported modes too), then two waits
//# fn=c06_disturbed covers=timeout configs=epoll-redox,poll-vita,poll-espidf cost=20 | any timeout below 1 s, in every schedule with another thread that adds, modifies or deletes a source once at any moment of the wait, and with a signal: the wait lasts its timeout
//# fn=c06_event covers=event;timeout configs=epoll-redox,poll-vita,poll-espidf cost=5 | a source becomes ready at any moment relative to any timeout below 2^40 s
//# fn=c06_idle covers=zero;sleeps configs=epoll-redox cost=5 | every Duration as timeout, every clock value below 2^40 s; nothing happens during the wait
//# fn=c06_none covers=event configs=epoll-redox,poll-vita,poll-espidf cost=1 | no timeout; a source becomes ready after any time below 2^40 s, with any timed wait before
//# fn=c06_slow covers=timeout configs=epoll-redox cost=5 | any delays inside wait() (at the first 5 moments it reads the clock) and any delay of the wake-up: never early
//# fn=c06_twice covers=second configs=epoll-redox cost=5 | two waits in a row with any timeouts, the first ended by an event at any time or not: the second lasts its own timeout
//# fn=c06_zero covers=ready;nothing configs=epoll-redox cost=1 | zero timeout, any conditions and interest, after any timed wait that ended early or not
//# fn=c07_event covers=event;timeout;interrupted configs=poll-vita,poll-espidf cost=5 | any timeout below 2^40 s or none, up to 3 signals, a source that becomes ready at any moment
//# fn=c07_notified covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=5 | notify() before the wait and a signal pending: the wait returns at once, whatever its timeout
//# fn=c07_race covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=10 | every schedule of wait() against notify() with up to 2 signals: the notification is not lost
//# fn=c07_race_event covers=event configs=epoll-redox,poll-vita,poll-espidf cost=10 | every schedule of wait() against a source that becomes ready with up to 2 signals: exactly one event
//# fn=c07_stale covers=second configs=epoll-redox cost=5 | a wait that delivered any event, then a wait interrupted up to 2 times that times out: nothing of the first is left in the container
//# fn=c08_all covers=both configs=poll-vita,poll-espidf cost=60 | a notification, a source that becomes ready and an add, modify or delete of another one by three threads, in every schedule with a fourth that waits: nothing is lost
//# fn=c08_before_wait covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=5 | notifications by two threads that are over before the wait begins
//# fn=c08_change covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=20 | a notification and an add, modify or delete by another thread, in every schedule with a waiting thread: the notification is not lost
//# fn=c08_handshake covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=5 | three rounds in which each side waits for the other: every schedule
//# fn=c08_race covers=woken configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=5 | every schedule of a thread that sets a flag and notifies once against a thread that waits without a timeout until it sees the flag
//# fn=c08_source covers=both configs=epoll-redox,poll-vita,poll-espidf cost=20 | a notification and a source that becomes ready, in every schedule with a waiting thread: neither is lost
//# fn=c08_source_small covers=both configs=epoll-redox cost=20 | the same with a container for one event
//# fn=c08_thrice covers=woken configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=5 | the same with three notifications in a row
//# fn=c08_timed covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=10 | waits with a timeout that may expire at any moment of the schedule: a notification made afterwards is seen, one made before does not linger
//# fn=c08_timeout covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=3 | a pending notification and any timeout or none: the wait does not sleep; the next wait with any timeout sleeps for all of it
//# fn=c08_two covers=woken configs=epoll-redox,poll-vita,poll-espidf cost=20 | two threads that each set a flag and notify, a third that waits for both
//# fn=c08_two_twice covers=woken configs=poll-vita,poll-espidf cost=10 | two threads with two notifications each
//# fn=c09_add covers=event configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=5 | a ready source is added by another thread, in every schedule with a thread that waits without a timeout: the event is delivered, exactly once
//# fn=c09_add_late covers=event configs=poll-vita,poll-espidf cost=5 | the same with a source that becomes ready after it was added
//# fn=c09_churn covers=done configs=poll-espidf cost=60 | two threads add, modify and delete a source each while a third waits: every call returns and succeeds
//# fn=c09_delete covers=deleted;before configs=epoll-redox,poll-vita,poll-espidf cost=10 | a source is deleted by another thread, in every schedule with a waiting thread: the call returns, and no wait that begins afterwards reports the source
//# fn=c09_modify covers=event configs=epoll-redox,poll-vita,poll-espidf cost=5 | the interest in a ready source is changed by another thread so that it counts, in every schedule with a waiting thread
//# fn=c09_rearm covers=three configs=epoll-redox,poll-vita,poll-espidf cost=5 | a one-shot source is re-armed by another thread twice while the first waits: delivered once per arming, with the key of that arming
//# fn=c09_same covers=one;gone configs=poll-vita,poll-espidf cost=30 | two threads add and a third deletes the same source, with a waiting thread: one of the orders of the calls explains all results
//# fn=c09_swap covers=event configs=epoll-redox,poll-vita,poll-espidf cost=10 | three sources, any one of which is deleted by another thread while the others become ready in any schedule with a waiting thread: these are delivered, with their keys, once
//# fn=c09_two covers=both configs=poll-vita,poll-espidf cost=30 | two threads add a ready source each while a third waits: both are delivered
//# fn=c09_undisturbed covers=event configs=poll-vita,poll-espidf cost=30 | a source that becomes ready while another one is added: the operation does not make the waiting thread miss it
//# fn=c10_again covers=second configs=poll-vita,poll-espidf cost=5 | after a contended wait the poller can be waited on again, by either thread
//# fn=c10_drain covers=all configs=poll-vita,poll-espidf cost=20 | two threads call wait() twice each for three ready one-shot sources: none is reported twice or with another key, and nothing is lost
//# fn=c10_error covers=error configs=poll-vita,poll-espidf cost=5 | two threads wait and the system call of one fails, in every schedule: that one gets the error and the poller can be waited on again
//# fn=c10_notify covers=woken configs=poll-vita,poll-espidf cost=10 | a notification while two threads call wait(): the one that waits is woken
//# fn=c10_operate covers=contended configs=poll-vita,poll-espidf cost=20 | two threads that wait as in c10_two and a third that adds and deletes another source: its calls return, and one waiter gets the event
//# fn=c10_three covers=contended configs=epoll-redox,poll-vita,poll-espidf cost=20 | one event for the first of three threads; the other two return
//# fn=c10_timed covers=empty;event configs=epoll-redox,poll-vita,poll-espidf cost=10 | one thread waits without a timeout, another with any of {0, 1 ns, 999 us, 10 s}: if the second finds the first waiting it returns at once, empty-handed
//# fn=c10_two covers=contended configs=epoll-redox,poll-vita,poll-espidf cost=5 | two threads wait without a timeout for the same source, which becomes ready only after one of them returned empty-handed: that one returns at once, the other gets the event
//# fn=c11_limit covers=error;enough configs=epoll-redox,poll-haiku,poll-vita cost=10 | any limit on open descriptors from 0 to 6
//# fn=c12_closed covers=dropped configs=epoll-redox,poll-vita,poll-espidf cost=5 | the user closes a registered source before the poller is dropped
//# fn=c12_history covers=dropped configs=epoll-redox,poll-haiku,poll-vita cost=30 | every history of 4 steps out of {add, add, delete, notify, sources ready, wait} with any modes, on the usual and the fallback notifier and timer, then drop
//# fn=c12_threads covers=dropped configs=epoll-redox,poll-vita,poll-espidf cost=5 | dropped after two threads used it, in every schedule
//# fn=c12_two covers=dropped configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=5 | two pollers with the same source, dropped in either order: the other one keeps working
//# fn=c13_refused covers=refused configs=epoll-redox cost=3 | descriptors the system refuses: a regular file, a closed one, any number that was never opened
//# fn=c13_wait covers=failed configs=poll-vita,poll-espidf cost=5 | wait() fails once at any point, with a notification or an event pending or not: both are still there afterwards
//# fn=c13_wait_epoll covers=failed configs=epoll-redox cost=5 | any of the system calls up to the one that waits fails in wait(), with any timeout, a source ready or not and a notification pending or not: the error is returned, and both are still there afterwards
//# fn=c14_contended covers=empty configs=epoll-redox,poll-espidf cost=5 | one thread waits without a timeout while another notifies and waits in turn, four times: never more than two wake-ups are in the channel, and one more wait empties it
//# fn=c14_many covers=many configs=epoll-redox,poll-haiku,poll-espidf cost=5 | 6 notifications in a row into a channel that holds a single one: no call fails or blocks, one wait() consumes them all
//# fn=c14_threads covers=empty configs=epoll-redox,poll-haiku,poll-vita,poll-espidf cost=30 | two threads notify twice each while a third calls wait() twice, with room for 4 wake-ups: nobody blocks, two more waits empty the channel
//# fn=c14_threads_operate covers=empty configs=poll-vita,poll-espidf cost=30 | the same with one of the threads adding and deleting a source
//# fn=c15_batches covers=full;batches configs=epoll-redox cost=10 | three one-shot or edge-triggered sources of which any are ready, a container for 1, 2 or 3 events: never more than fit, every event in one of the next waits, each exactly once
//# fn=c15_container covers=empty;filled configs=epoll-redox,poll-vita,poll-espidf cost=5 | the container itself: length, iteration, emptiness and capacity agree before and after any wait and after clear()
//# fn=c15_notified covers=all configs=epoll-redox cost=10 | the same with a notification pending and waits without a timeout: none sleeps until everything is delivered, and the notification takes up no place in the count
//# fn=c15_timer covers=all configs=epoll-redox cost=5 | three ready sources, a container for one event and a timeout that the kernel's timer reaches: neither the events nor the time-out are lost
//# fn=c17_any covers=done configs=epoll-redox,poll-vita,poll-espidf cost=60 | every history of 3 calls with any arguments: any key, interest, mode, any of two sources, an internal or a closed descriptor, any timeout at all, any conditions, container cleared or not
//# fn=c17_timeouts covers=sleeps;huge configs=epoll-redox cost=10 | any timeout a Duration can hold, any time of the clock from 0 to 2^62 s since boot, with or without a notification pending: no panic, never early
//# fn=c21_drop covers=done configs=epoll-redox,poll-vita,poll-espidf cost=10 | a poller is dropped while a thread waits on another one that watches the same source, which then becomes ready: every schedule
//# fn=c21_threads covers=done configs=epoll-redox,poll-vita,poll-espidf cost=10 | one thread waits on each of two pollers without a timeout, a third one notifies both, in either order: every schedule
