import re
ann={}
for n in ["01","02","03","04","05","06","07","08","09","10","11","12","13","14","15","16","17","21","24","25"]:
    cur=None
    for l in open('/verif/harness/c%s.rs'%n):
        m=re.match(r"//#\s+(.*)$", l)
        if not m: continue
        spec,_,b=m[1].partition('|')
        if spec.strip().startswith('fn='):
            d=dict(w.split('=',1) for w in spec.split())
            cur=d['fn']; ann[cur]=[n,d.get('covers',''),d.get('cost','1'),b.strip()]
        else: ann[cur][3]+=' '+m[1].strip()
CFG={}
def gen(out,title,configs,fns,own,drop={}):
    inc=sorted({ann[f][0] for f in fns})
    t='// %s\n#[path = "bsd.rs"]\nmod bsd;\n'%title
    for n in inc: t+='#[path = "c%s.rs"]\nmod c%s;\n'%(n,n)
    t+='\n'
    for l in own: t+='//# '+l+'\n'
    for f in fns:
        n,c,cost,b=ann[f]
        c=';'.join(x for x in c.split(';') if x and x not in drop.get(f,''))
        t+='//# fn=%s %sconfigs=%s | %s\n'%(f,('covers='+c+' ') if c else '',configs,b)
    open(out,'w').write(t)
common="c03_internal c06_idle c06_event c06_none c06_twice c06_slow c06_disturbed c07_notified c07_race c07_race_event c08_timeout c08_race c08_thrice c08_handshake c08_two c08_two_twice c08_timed c08_source c08_source_small c08_change c08_before_wait c08_all c09_add c09_add_late c09_modify c09_rearm c09_delete c09_rename c09_two c09_same c09_churn c09_undisturbed c09_swap c09_recycle c09_interest c10_two c10_three c10_timed c10_drain c10_notify c10_again c10_operate c12_history c12_two c12_closed c12_threads c14_many c14_threads c15_batches c15_timer c15_container c15_reuse c17_any c17_timeouts c21_threads c21_busy c21_drop".split()
kq=common+"c09_history c13_refused c14_history c14_threads_operate".split()
bad="c03_internal c08_change c08_all c09_delete c09_rename c09_same c09_interest c10_three c12_two c15_batches c15_container c15_reuse c21_drop".split()
port=[f for f in common if f not in bad]
C="kqueue,kqueue-pipe"
gen('/verif/harness/c19.rs','The kqueue backend.',C,kq,[
 "fn=bsd_events covers=event configs=%s | one source, any key, interest, mode and conditions of {readable, writable, error, hang-up, end of file}: one wait"%C,
 "fn=bsd_modes covers=reported;again configs=%s cost=10 | one source, every mode, every history of 4 steps (ready or not, for reading or writing; modify; wait)"%C,
 "fn=bsd_modes_deep configs=%s tier=thorough cost=100 | the same with 6 steps"%C,
 "fn=bsd_history covers=twice;modified;deleted configs=%s cost=10 | two sources, one with any mode and one level-triggered, every history of 3 operations (add, modify, delete, each with any interest; wait), then two waits"%C,
 "fn=bsd_history_deep configs=%s tier=thorough cost=100 | the same with 4 operations"%C,
 "fn=bsd_failures covers=add;afterwards;wait;modify configs=%s cost=5 | add, add again, wait, modify, of which any two fail"%C,
 "fn=bsd_new covers=new;failed configs=%s | any 2 failures of the system calls of Poller::new()"%C,
 "fn=bsd_signal covers=fired configs=kqueue cost=5 | a signal filter: every history of 5 operations (add, modify, delete, signal, wait) in any mode",
 "fn=bsd_process covers=fired configs=kqueue cost=5 | a process filter for any operation: every history of 4 steps",
 "fn=bsd_others covers=both configs=kqueue | a signal and a process filter: what happens to others is not reported",
 "fn=bsd_timer covers=modified configs=kqueue | a timer filter with any timeout below 2^40 s, set again with any other or not",
])
P="port"
gen('/verif/harness/c22.rs','The event port backend.',P,port,[
 "fn=bsd_events covers=event configs=port | one source, any key, interest and conditions of {readable, priority, writable, error, hang-up, end of file}: one wait",
 "fn=bsd_modes covers=reported;again configs=port cost=10 | one source, every history of 4 steps (ready or not, for reading or writing; modify; wait)",
 "fn=bsd_modes_deep configs=port tier=thorough cost=100 | the same with 6 steps",
 "fn=bsd_history covers=modified;deleted configs=port cost=10 | two sources, every history of 4 operations (add, modify, delete, each with any interest; wait), then two waits",
 "fn=bsd_history_deep configs=port tier=thorough states=12000000 cost=100 | the same with 6 operations",
 "fn=bsd_failures covers=add;afterwards;wait;modify configs=port cost=5 | add, add again, wait, modify, of which any two fail",
 "fn=bsd_new covers=new;failed configs=port | any 2 failures of the system calls of Poller::new()",
 "fn=bsd_unsupported covers=refused configs=port | any mode but one-shot, for a source that is registered or not",
])

# The systems on which epoll and poll() are used in another way.
sets={
 "epoll-redox":"c01_add c02_modify c03_add c03_modify c03_internal c04_one c05_two c05_swap c05_rejected c06_idle c06_event c06_none c06_zero c06_twice c06_slow c06_disturbed c07_stale c07_notified c07_race c07_race_event c08_timeout c08_race c08_thrice c08_handshake c08_two c08_timed c08_source c08_source_small c08_change c08_before_wait c09_add c09_modify c09_rearm c09_delete c09_swap c10_two c10_three c10_timed c11_limit c12_history c12_two c12_closed c12_threads c13_refused c13_wait_epoll c14_many c14_threads c14_contended c15_batches c15_notified c15_timer c15_container c17_any c17_timeouts c21_threads c21_drop",
 "poll-haiku":"c01_add c04_one c05_two c08_race c08_thrice c09_add c11_limit c12_history c12_two c14_many c14_threads",
}
slow="c01_add c03_internal c04_one c05_two c05_swap c06_event c06_none c06_disturbed c07_event c07_notified c07_race c07_race_event c08_timeout c08_race c08_thrice c08_handshake c08_two c08_two_twice c08_timed c08_source c08_change c08_before_wait c08_all c09_add c09_add_late c09_modify c09_rearm c09_delete c09_two c09_same c09_churn c09_undisturbed c09_swap c10_two c10_three c10_timed c10_drain c10_notify c10_again c10_operate c10_error c11_limit c12_history c12_two c12_closed c12_threads c13_wait c14_many c14_threads c14_threads_operate c14_contended c15_container c17_any c21_threads c21_drop"
sets["poll-vita"]=slow.replace(" c05_two c05_swap","").replace(" c14_many","").replace(" c14_contended","").replace(" c09_churn","")
sets["poll-espidf"]=slow.replace(" c11_limit c12_history","")
by={}
for c,l in sets.items():
    for f in l.split(): by.setdefault(f,[]).append(c)
def gen26(out):
    inc=sorted({ann[f][0] for f in by})
    t='// Systems on which epoll and poll() are used in another way: Redox, Haiku, Vita, ESP-IDF.\n'
    for n in inc: t+='#[path = "c%s.rs"]\nmod c%s;\n'%(n,n)
    t+='\n'
    for f in sorted(by):
        n,c,cost,b=ann[f]
        t+='//# fn=%s %sconfigs=%s cost=%s | %s\n'%(f,('covers='+c+' ') if c else '',','.join(by[f]),cost,b)
    open(out,'w').write(t)
gen26('/verif/harness/c26.rs')
