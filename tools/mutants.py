"""changes to try: (name, kind, properties, [(file, old, new)])"""
SCH = "src/kern/core/hev-task-system-schedule.c"
CND = "src/kern/sync/hev-task-cond.c"
MTX = "src/kern/sync/hev-task-mutex.c"
LST = "src/lib/list/hev-list.c"
EXE = "src/kern/task/hev-task-executer.c"
SEL = "src/kern/itc/hev-task-channel-select.c"
SEP = "src/kern/itc/hev-task-channel-select-private.h"
TIM = "src/kern/time/hev-task-timer.c"
TFD = "src/kern/time/hev-task-timer-timerfd.h"
TASK = "src/kern/task/hev-task.c"
RBC = "src/lib/rbtree/hev-rbtree-cached.c"
CHC = "src/kern/itc/hev-task-channel.c"
CHH = "src/kern/itc/hev-task-channel-private.h"
CSC = "src/kern/itc/hev-task-channel-select.c"
CSH = "src/kern/itc/hev-task-channel-select-private.h"
IOB = "src/lib/io/basic/hev-task-io.c"
IOS = "src/lib/io/socket/hev-task-io-socket.c"
CIO = "src/lib/cio/base/hev-task-cio.c"
EPH = "src/kern/io/hev-task-io-reactor-epoll.h"
EPC = "src/kern/io/hev-task-io-reactor-epoll.c"
POL = "src/lib/io/poll/hev-task-io-poll.c"
CBF = "src/lib/io/buffer/hev-circular-buffer.c"
CIH = "src/lib/cio/base/hev-task-cio.h"
CIFD = "src/lib/cio/fd/hev-task-cio-fd.c"
CISO = "src/lib/cio/socket/hev-task-cio-socket.c"
CIBU = "src/lib/cio/buffer/hev-task-cio-buffer.c"
CINU = "src/lib/cio/null/hev-task-cio-null.c"
OBJ = "src/lib/object/hev-object.c"
OBA = "src/lib/object/hev-object-atomic.c"
IOP = "src/lib/io/pipe/hev-task-io-pipe.c"
TFC = "src/kern/time/hev-task-timer-timerfd.c"
REA = "src/kern/io/hev-task-io-reactor.c"
DET = "src/lib/misc/hev-task-stack-detector.c"
STM = "src/kern/task/hev-task-stack-mmap.c"
STH = "src/kern/task/hev-task-stack-heap.c"
DNP = "src/lib/dns/hev-task-dns-proxy.c"
DNS = "src/lib/dns/hev-task-dns.c"
AID = "src/kern/aide/hev-task-aide.c"
SYS = "src/kern/core/hev-task-system.c"
CAL = "src/kern/task/hev-task-call.c"
SLI = "src/mem/slice/hev-memory-allocator-slice.c"
MAP = "src/mem/api/hev-memory-allocator-api.c"
MAB = "src/mem/base/hev-memory-allocator.c"
MAS = "src/mem/simple/hev-memory-allocator-simple.c"
ASM = "src/arch/x86/hev-task-execute-x86_64.s"
RBT = "src/lib/rbtree/hev-rbtree.c"
RBH = "src/lib/rbtree/hev-rbtree.h"
M = [
    ("sch-le", "bug", ["C02"], [(SCH, "if (task->sched_key < this->sched_key)", "if (task->sched_key <= this->sched_key)")]),
    ("sch-leftmost", "bug", ["C02"], [(SCH, "            leftmost = 0;\n", "")]),
    ("sch-prio", "bug", ["C02"], [(SCH, "    task->priority = task->next_priority;\n\n    hev_rbtree_cached_erase", "    hev_rbtree_cached_erase")]),
    ("sch-waitkey", "bug", ["C02"], [(SCH, "        task->sched_key = task->next_priority;", "        task->sched_key += task->next_priority;")]),
    ("sch-nominkey", "bug", ["C02"], [(SCH, "    task->sched_key += hev_task_system_get_min_sched_key (ctx);\n\n    hev_task_system_insert", "    hev_task_system_insert")]),
    ("sch-run-minkey", "bug", ["C02"], [(SCH, "    if (ctx->current_task)\n        task->sched_key += hev_task_system_get_min_sched_key (ctx);\n", "")]),
    ("sch-runcnt", "bug", ["C01"], [(SCH, "    ctx->running_task_count--;\n\n    if (HEV_TASK_STOPPED == state) {", "    if (HEV_TASK_STOPPED == state) {\n        ctx->running_task_count--;")]),
    ("sch-wakestopped", "bug", ["C01"], [(SCH, "    if (task->state == HEV_TASK_STOPPED)\n        abort ();\n", "")]),
    ("sch-state-late", "bug", ["C01"], [(SCH, "    task->state = HEV_TASK_RUNNING;\n    task->priority", "    task->priority")]),
    ("sch-poll-lt", "bug", ["C03"], [(SCH, "if (ctx->running_task_count < ctx->total_task_count)", "if (ctx->running_task_count + 1 < ctx->total_task_count)")]),
    ("sch-once", "bug", ["C03"], [(SCH, "            do {\n                hev_task_system_io_poll (ctx, -1);\n            } while (!ctx->running_task_count);", "            hev_task_system_io_poll (ctx, -1);")]),
    ("sch-ev512", "bug", ["C03"], [(SCH, "events[1024];", "events[512];")]),
    ("sch-skip0", "bug", ["C03"], [(SCH, "for (i = 0; i < count; i++)", "for (i = 1; i < count; i++)")]),
    ("sch-starve", "bug", ["C03"], [(SCH, "        if (ctx->running_task_count) {\n            hev_task_system_io_poll (ctx, 0);\n        } else {", "        if (!ctx->running_task_count) {")]),
    ("sch-unref-early", "bug", ["C04"], [(SCH, "        ctx->total_task_count--;\n        hev_task_unref (task);\n    } else", "        ctx->total_task_count--;\n    } else"), (SCH, "    _longjmp (ctx->kernel_context, HEV_TASK_SCHED_REMOVE);", "    hev_task_unref (ctx->current_task);\n    _longjmp (ctx->kernel_context, HEV_TASK_SCHED_REMOVE);")]),
    ("sch-noexec", "bug", ["C04", "C01"], [(SCH, "    hev_task_execute (task, hev_task_executer);\n", "    if (!task->stack_bottom)\n        hev_task_execute (task, hev_task_executer);\n")]),
    ("sch-typeswap", "bug", ["C04"], [(SCH, "_longjmp (ctx->kernel_context, type);", "_longjmp (ctx->kernel_context, HEV_TASK_SCHED_SWITCH);")]),
    ("rbc-erase", "bug", ["C02"], [(RBC, "    if (node == self->leftmost)", "    if (node == self->base.root)")]),
    ("join-nowake", "bug", ["C05"], [("src/kern/task/hev-task-executer.c", "    if (task->joiner)\n        hev_task_wakeup (task->joiner);\n", "")]),
    ("join-once", "bug", ["C05"], [(TASK, "    for (;;) {\n        if (hev_task_get_state (task) == HEV_TASK_STOPPED)\n            break;\n\n        hev_task_wakeup (task);\n        hev_task_yield (HEV_TASK_WAITIO);\n    }", "    if (hev_task_get_state (task) != HEV_TASK_STOPPED) {\n        hev_task_wakeup (task);\n        hev_task_yield (HEV_TASK_WAITIO);\n    }")]),
    ("prio-clamp", "bug", ["C02"], [(TASK, "        priority = HEV_TASK_PRIORITY_MAX;", "        priority = HEV_TASK_PRIORITY_MAX + 1;")]),
    ("tim-rearm", "bug", ["C13"], [(TIM, "            self->sched_entity.task = node->task;", "            self->sched_entity.task = task;")]),
    ("tim-first", "bug", ["C13"], [(TIM, "    if (&node->base == hev_rbtree_cached_first (&self->sort_tree))\n        leftmost = 1;\n", "")]),
    ("tim-fake", "bug", ["C13"], [(TIM, "            self->sched_entity.task = &fake_task;", "            self->sched_entity.task = task;")]),
    ("tim-cmp", "bug", ["C13"], [(TIM, "    if (a->expire.tv_nsec > b->expire.tv_nsec)\n        return 1;", "    if (a->expire.tv_nsec > b->expire.tv_nsec)\n        return -1;")]),
    ("tim-nsec", "bug", ["C14"], [(TIM, "(microseconds % 1000000) * 1000;", "(microseconds % 1000000) * 1024;")]),
    ("tim-neg", "bug", ["C14"], [(TIM, "    if (sec < 0)\n        return 0;\n", "")]),
    ("tim-borrow", "bug", ["C14"], [(TIM, "    if (nsec < 0) {\n        sec--;\n", "    if (nsec < 0) {\n")]),
    ("tfd-rel", "bug", ["C13"], [(TFD, "self->fd, TFD_TIMER_ABSTIME,", "self->fd, 0,")]),
    ("sleep-unit", "bug", ["C14"], [(TASK, "           1000;\n}", "           1;\n}")]),
    # behaviour preserving
    ("s-helper", "same", [], [(SCH, "static inline void\nhev_task_system_reinsert_current_task", "static inline void\nset_prio (HevTask *t)\n{\n    t->priority = t->next_priority;\n}\n\nstatic inline void\nhev_task_system_reinsert_current_task"), (SCH, "    task->state = HEV_TASK_RUNNING;\n    task->priority = task->next_priority;\n", "    set_prio (task);\n    task->state = HEV_TASK_RUNNING;\n"), (SCH, "static inline void\nhev_task_system_insert_task", "static inline void set_prio (HevTask *t);\nstatic inline void\nhev_task_system_insert_task")]),
    ("s-count-first", "same", [], [(SCH, "    _hev_task_system_insert_task (&ctx->running_tasks, task);\n\n    ctx->running_task_count++;", "    ctx->running_task_count++;\n    _hev_task_system_insert_task (&ctx->running_tasks, task);")]),
    ("s-descent-for", "same", [], [(SCH, "    HevRBTreeNode **new = &tree->base.root, *parent = NULL;\n    int leftmost = 1;\n\n    while (*new) {\n        HevTask *this = container_of (*new, HevTask, sched_node);\n\n        parent = *new;\n        if (task->sched_key < this->sched_key) {\n            new = &((*new)->left);\n        } else {\n            new = &((*new)->right);\n            leftmost = 0;\n        }\n    }\n",
      "    HevRBTreeNode **new;\n    HevRBTreeNode *parent = NULL, *n;\n    int leftmost = 1;\n\n    for (new = &tree->base.root; (n = *new) != NULL;) {\n        uint64_t key = container_of (n, HevTask, sched_node)->sched_key;\n\n        parent = n;\n        if (task->sched_key >= key) {\n            leftmost = 0;\n            new = &n->right;\n            continue;\n        }\n        new = &n->left;\n    }\n")]),
    ("s-evdown", "same", [], [(SCH, "    for (i = 0; i < count; i++) {\n        HevTaskSchedEntity *sched_entity;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);", "    for (i = count - 1; i >= 0; i--) {\n        HevTaskSchedEntity *sched_entity;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);")]),
    ("s-evwhile", "same", [], [(SCH, "    for (i = 0; i < count; i++) {\n        HevTaskSchedEntity *sched_entity;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);\n        hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);\n    }", "    i = 0;\n    while (i < count) {\n        HevTaskIOReactorWaitEvent *ev = events + i++;\n        HevTaskSchedEntity *sched_entity;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (ev);\n        hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);\n    }")]),
    ("s-evptr", "same", [], [(SCH, "    for (i = 0; i < count; i++) {\n        HevTaskSchedEntity *sched_entity;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);\n        hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);\n    }", "    HevTaskIOReactorWaitEvent *ev = events;\n    for (i = count; i > 0; i--, ev++) {\n        HevTaskSchedEntity *sched_entity;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (ev);\n        hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);\n    }")]),
    ("s-pollto", "same", [], [(SCH, "        if (ctx->running_task_count) {\n            hev_task_system_io_poll (ctx, 0);\n        } else {\n            do {\n                hev_task_system_io_poll (ctx, -1);\n            } while (!ctx->running_task_count);\n        }", "        int timeout = ctx->running_task_count ? 0 : -1;\n        do {\n            hev_task_system_io_poll (ctx, timeout);\n        } while (ctx->running_task_count == 0);")]),
    ("s-wake-switch", "same", [], [(SCH, "    if (task->state == HEV_TASK_RUNNING)\n        return;\n\n    if (task->state == HEV_TASK_STOPPED)\n        abort ();\n", "    switch (task->state) {\n    case HEV_TASK_RUNNING:\n        return;\n    case HEV_TASK_STOPPED:\n        abort ();\n    default:\n        break;\n    }\n")]),
    ("s-remove-order", "same", [], [(SCH, "    task->state = state;\n\n    hev_rbtree_cached_erase (&ctx->running_tasks, &task->sched_node);\n\n    ctx->running_task_count--;\n", "    ctx->running_task_count -= 1;\n    hev_rbtree_cached_erase (&ctx->running_tasks, &task->sched_node);\n    task->state = state;\n")]),
    ("s-clamp", "same", [], [(TASK, "    if (priority < HEV_TASK_PRIORITY_MIN)", "    if (priority <= HEV_TASK_PRIORITY_MIN)")]),
    ("s-join-while", "same", [], [(TASK, "    for (;;) {\n        if (hev_task_get_state (task) == HEV_TASK_STOPPED)\n            break;\n\n        hev_task_wakeup (task);", "    while (task->state != HEV_TASK_STOPPED) {\n        hev_task_wakeup (task);")]),
    ("s-timer-split", "same", [], [(TIM, "    if (leftmost) {\n        /* update timer: pick current */\n        if (hev_task_timer_set_time (self, &node->expire) < 0)\n            abort ();\n        self->sched_entity.task = task;\n    }\n", "    if (leftmost)\n        arm (self, node);\n"), (TIM, "uint64_t\nhev_task_timer_wait", "static void\narm (HevTaskTimer *self, HevTaskTimerNode *n)\n{\n    self->sched_entity.task = n->task;\n    if (hev_task_timer_set_time (self, &n->expire) < 0)\n        abort ();\n}\n\nuint64_t\nhev_task_timer_wait")]),
    ("s-timer-rest", "same", [], [(TIM, "    sec = expire->tv_sec - curr.tv_sec;\n    nsec = expire->tv_nsec - curr.tv_nsec;\n    if (nsec < 0) {\n        sec--;\n        nsec += 1000000000L;\n    }\n\n    if (sec < 0)\n        return 0;\n\n    return (sec * 1000000) + (nsec / 1000);", "    sec = 0;\n    nsec = (expire->tv_sec - curr.tv_sec) * 1000000000L + (expire->tv_nsec - curr.tv_nsec) + sec;\n    if (nsec < 0)\n        return 0;\n\n    return nsec / 1000;")]),
    ("s-timer-exp", "same", [], [(TIM, "    expire->tv_sec += microseconds / 1000000;\n    expire->tv_nsec += (microseconds % 1000000) * 1000;\n    if (expire->tv_nsec >= 1000000000L) {\n        expire->tv_sec++;\n        expire->tv_nsec -= 1000000000L;\n    }", "    long ns = expire->tv_nsec + (microseconds % 1000000) * 1000;\n    if (ns > 999999999) {\n        ns -= 1000000000L;\n        expire->tv_sec += 1;\n    }\n    expire->tv_nsec = ns;\n    expire->tv_sec += microseconds / 1000000;")]),
    ("s-timer-cmp", "same", [], [(TIM, "    if (a->expire.tv_sec < b->expire.tv_sec)\n        return -1;\n    if (a->expire.tv_sec > b->expire.tv_sec)\n        return 1;\n\n    if (a->expire.tv_nsec < b->expire.tv_nsec)\n        return -1;\n    if (a->expire.tv_nsec > b->expire.tv_nsec)\n        return 1;\n\n    if (a < b)\n        return -1;\n    if (a > b)\n        return 1;\n\n    return 0;", "    if (a->expire.tv_sec != b->expire.tv_sec)\n        return a->expire.tv_sec < b->expire.tv_sec ? -1 : 1;\n    if (a->expire.tv_nsec != b->expire.tv_nsec)\n        return a->expire.tv_nsec < b->expire.tv_nsec ? -1 : 1;\n    return 0;")]),
    # channels
    ("ch-lt", "bug", ["C10"], [(CHH, "(peer->use_count) < READ_ONCE (peer->max_count);", "(peer->use_count) <= READ_ONCE (peer->max_count);")]),
    ("ch-rdidx", "bug", ["C10"], [(CHC, "self->rd_idx = (self->rd_idx + 1) % self->max_count;", "self->rd_idx = (self->rd_idx + 1) & (self->max_count - 1);")]),
    ("ch-if", "bug", ["C10", "C07"], [(CHC, "    while (!hev_task_channel_is_readable (self)) {", "    if (!hev_task_channel_is_readable (self)) {")]),
    ("ch-sz", "bug", ["C10"], [(CHC, "    if (cbuf->size < count)\n        size = cbuf->size;\n", "")]),
    ("ch-msz", "bug", ["C10"], [(CHC, "        if (size > self->max_size)\n            size = self->max_size;\n", "")]),
    ("ch-szcount", "bug", ["C10"], [(CHC, "    cbuf->size = size;", "    cbuf->size = count;")]),
    ("ch-wakerd", "bug", ["C10"], [(CHC, "    if (peer->use_count == 0) {", "    if (peer->use_count == 0 && peer->select) {")]),
    ("ch-nosync", "bug", ["C10"], [(CHC, "    /* sync */\n    while (", "    /* sync */\n    while (count > 8 && ")]),
    ("ch-case", "bug", ["C10"], [(CHC, "    case sizeof (int):\n", "    case sizeof (int):\n    case 3:\n")]),
    ("ch-commitearly", "bug", ["C10"], [(CHC, "    if (self->use_count + 1 >= self->max_count) {", "    if (self->use_count > self->max_count) {")]),
    ("ch-noactive", "bug", ["C11", "C10"], [(CHC, "        if (!hev_task_channel_is_active (self))\n            goto out;\n", "")]),
    ("ch-noref", "bug", ["C11"], [(CHC, "    hev_task_channel_ref (peer);\n", ""), (CHC, "    hev_task_channel_unref (peer);\n", "")]),
    ("ch-leak", "bug", ["C11"], [(CHC, "            goto out1;", "            goto out0;")]),
    ("ch-nopeer", "bug", ["C11"], [(CHC, "        self->peer->peer = NULL;\n", "")]),
    ("ch-nowakedestroy", "bug", ["C11"], [(CHC, "        if (self->peer->task)\n            hev_task_wakeup (self->peer->task);\n", "")]),
    ("ch-pending", "bug", ["C11", "C10"], [(CHC, "    /* wait on empty */\n", "    if (!hev_task_channel_is_active (self))\n        goto out;\n\n    /* wait on empty */\n")]),
    ("ch-forget", "bug", ["C06"], [(CHC, "    if (READ_ONCE (self->task) == hev_task_self ())\n        self->task = task;\n", "")]),
    ("ch-reg", "bug", ["C07", "C10"], [(CHC, "    WRITE_ONCE (self->task, hev_task_self ());\n", "    if (!self->task)\n        WRITE_ONCE (self->task, hev_task_self ());\n")]),
    ("sel-used", "bug", ["C12"], [(CSH, "    if (!chan->write.used)\n        return;\n", "")]),
    ("sel-flag", "bug", ["C12"], [(CSH, "    chan->read.used = 0;\n", "")]),
    ("sel-addw", "bug", ["C12"], [(CSC, "    if (chan->peer && hev_task_channel_is_select_writable (chan->peer))", "    if (chan->peer && hev_task_channel_is_writable (chan->peer))")]),
    ("sel-delorder", "bug", ["C12"], [(CSC, "    hev_task_channel_select_del_write (self, chan);\n", "")]),
    ("sel-timeout", "bug", ["C12"], [(CSC, "            milliseconds = hev_task_sleep (milliseconds);", "            hev_task_sleep (milliseconds);")]),
    ("sel-delread", "bug", ["C12"], [(CHC, "    if (self->select && !hev_task_channel_is_readable (self))", "    if (self->select)")]),
    ("sel-addmiss", "bug", ["C12"], [(CHC, "        if (peer->select)\n            hev_task_channel_select_add_read (peer->select, peer);\n        if (peer->task)", "        if (peer->select)\n            hev_task_channel_select_add_read (peer->select, peer);\n        else if (peer->task)")]),
    ("list-del", "bug", ["C12"], [("src/lib/list/hev-list.c", "        self->tail = node->prev;", "        self->tail = NULL;")]),
    ("ch-s-helper", "same", [], [(CHC, "    cbuf = &self->buffers[self->rd_idx];\n    self->rd_idx = (self->rd_idx + 1) % self->max_count;\n", "    cbuf = take_slot (self);\n"), (CHC, "EXPORT_SYMBOL ssize_t\nhev_task_channel_read", "static HevTaskChannelBuffer *\ntake_slot (HevTaskChannel *self)\n{\n    unsigned int idx = self->rd_idx++;\n\n    if (self->rd_idx == self->max_count)\n        self->rd_idx = 0;\n    return self->buffers + idx;\n}\n\nEXPORT_SYMBOL ssize_t\nhev_task_channel_read")]),
    ("ch-s-order", "same", [], [(CHC, "    self->use_count--;\n    if (self->select && !hev_task_channel_is_readable (self))\n        hev_task_channel_select_del_read (self->select, self);\n", ""), (CHC, "    if (self->use_count + 1 >= self->max_count) {", "    self->use_count--;\n    if (self->select && !self->use_count)\n        hev_task_channel_select_del_read (self->select, self);\n\n    if (self->use_count + 2 >= self->max_count) {"), (CHC, "self->use_count < self->max_count)", "self->use_count + 1 < self->max_count)")]),
    ("ch-s-loop", "same", [], [(CHC, "    while (!hev_task_channel_is_readable (self)) {\n        /* check is peer alive because cond wait may yield */\n        if (!hev_task_channel_is_active (self))\n            goto out;\n\n        hev_task_channel_wait (self);\n    }", "    for (;;) {\n        if (self->use_count)\n            break;\n        if (!self->peer)\n            goto out;\n        hev_task_channel_wait (self);\n        barrier ();\n    }")]),
    ("ch-s-min", "same", [], [(CHC, "    size = count;\n    if (cbuf->size < count)\n        size = cbuf->size;\n    size = hev_task_channel_data_copy (buffer, cbuf->data, size);", "    size = cbuf->size <= count ? cbuf->size : count;\n    if (size)\n        __builtin_memcpy (buffer, cbuf->data, size);")]),
    ("ch-s-wakeorder", "same", [], [(CHC, "    if (peer->use_count == 0) {\n        if (peer->select)\n            hev_task_channel_select_add_read (peer->select, peer);\n        if (peer->task)\n            hev_task_wakeup (peer->task);\n    }\n\n    peer->use_count++;", "    peer->use_count += 1;\n    if (peer->use_count == 1) {\n        if (peer->task)\n            hev_task_wakeup (peer->task);\n        if (peer->select)\n            hev_task_channel_select_add_read (peer->select, peer);\n    }")]),
    ("ch-s-destroy", "same", [], [(CHC, "    if (self->peer) {\n        self->peer->peer = NULL;\n        if (self->peer->task)\n            hev_task_wakeup (self->peer->task);\n        self->peer = NULL;\n    }", "    HevTaskChannel *peer = self->peer;\n\n    self->peer = NULL;\n    if (peer != NULL) {\n        HevTask *task = peer->task;\n        peer->peer = NULL;\n        if (task)\n            hev_task_wakeup (task);\n    }")]),
    ("ch-s-sel", "same", [], [(CSC, "    while (!(node = hev_list_first (list)) && milliseconds) {\n        barrier ();\n        if (timeout < 0)\n            hev_task_yield (HEV_TASK_WAITIO);\n        else\n            milliseconds = hev_task_sleep (milliseconds);\n        barrier ();\n    }\n\n    return node;", "    for (;;) {\n        node = hev_list_first (list);\n        if (node || !milliseconds)\n            return node;\n        barrier ();\n        if (timeout >= 0)\n            milliseconds = hev_task_sleep (milliseconds);\n        else\n            hev_task_yield (HEV_TASK_WAITIO);\n        barrier ();\n    }")]),
    ("ch-s-new", "same", [], [(CHC, "        unsigned int i;\n\n        for (i = 0; i < buffers; i++) {\n            size_t offset = buffers_size + (size_t)size * i;\n\n            c1->buffers[i].data = (void *)c1->buffers + offset;\n            c2->buffers[i].data = (void *)c2->buffers + offset;\n        }", "        unsigned int i;\n        char *d1 = (char *)c1->buffers + buffers_size;\n        char *d2 = (char *)c2->buffers + buffers_size;\n\n        for (i = 0; i < buffers; i++, d1 += size, d2 += size) {\n            c1->buffers[i].data = (void *)d1;\n            c2->buffers[i].data = (void *)d2;\n        }")]),
    # i/o wrappers
    ("io-readmask", "bug", ["C15"], [(IOB, "if (s < 0 && errno == EAGAIN)", "if (s <= 0 && errno == EAGAIN)", "hev_task_io_read")]),
    ("io-anyerr", "bug", ["C15"], [(IOB, "if (s < 0 && errno == EAGAIN)", "if (s < 0 && (errno == EAGAIN || errno == EINTR))", "hev_task_io_writev")]),
    ("io-yielder-ret", "bug", ["C15"], [(IOB, "                return -2;", "                return s;", "hev_task_io_writev")]),
    ("io-yielder-sign", "bug", ["C15"], [(IOS, "if (yielder (HEV_TASK_WAITIO, yielder_data))", "if (yielder (HEV_TASK_WAITIO, yielder_data) < 0)", "hev_task_io_socket_sendto")]),
    ("io-yield-type", "bug", ["C15"], [(IOS, "hev_task_yield (HEV_TASK_WAITIO);", "hev_task_yield (HEV_TASK_YIELD);", "hev_task_io_socket_recvfrom")]),
    ("io-both", "bug", ["C15"], [(CIO, "        } else {\n            hev_task_yield (HEV_TASK_WAITIO);\n        }", "        }\n        hev_task_yield (HEV_TASK_WAITIO);", "hev_task_cio_writev_dgram")]),
    ("io-conn-already", "bug", ["C15"], [(IOS, "if (errno == EINPROGRESS || errno == EALREADY)", "if (errno == EINPROGRESS)", "hev_task_io_socket_connect")]),
    ("io-conn-isconn", "bug", ["C15"], [(IOS, "        } else if (errno == EISCONN) {\n            ret = 0;\n        }\n", "        }\n", "hev_task_io_socket_connect")]),
    ("io-flags", "bug", ["C15"], [(IOS, "flags & ~MSG_WAITALL);", "0);", "hev_task_io_socket_send")]),
    ("io-nowaitall", "bug", ["C15"], [(IOS, "    if (!(flags & MSG_WAITALL))\n        return s;\n", "", "hev_task_io_socket_recvfrom")]),
    ("io-cio-err", "bug", ["C15"], [(CIO, "self->err == EAGAIN", "errno == EAGAIN", "hev_task_cio_read_dgram"), (CIO, "#include <", "#include <errno.h>\n#include <")]),
    ("io-cio-other", "bug", ["C15"], [(CIO, "kptr->writev_dgram (self", "kptr->readv_dgram (self", "hev_task_cio_writev_dgram"), (CIO, "iov, iovcnt, addr);", "iov, iovcnt, (void *)addr);", "hev_task_cio_writev_dgram")]),
    ("io-flush1", "bug", ["C15"], [(CIO, "        goto retry;", "        return kptr->ctrl (self, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);", "hev_task_cio_flush")]),
    ("io-namelen", "bug", ["C15"], [(IOS, "        msg->msg_flags = mh.msg_flags;\n", "", "hev_task_io_socket_recvmsg")]),
    ("io-waitall-off", "bug", ["C16"], [(IOS, "recv (fd, buf + size, len - size,", "recv (fd, buf + size, len,", "hev_task_io_socket_recv")]),
    ("io-waitall-ret", "bug", ["C16"], [(IOS, "        if (size)\n            return size;\n", "", "hev_task_io_socket_sendto")]),
    ("io-waitall-le", "bug", ["C16"], [(IOS, "if (size < len)", "if (size + 1 < len)", "hev_task_io_socket_send")]),
    ("io-waitall-s", "bug", ["C16"], [(IOS, "    return size;", "    return s;", "hev_task_io_socket_recvfrom")]),
    ("io-vec-le", "bug", ["C16"], [(IOS, "if (s < mh.msg_iov[i].iov_len)", "if (s <= mh.msg_iov[i].iov_len)", "hev_task_io_socket_sendmsg")]),
    ("io-vec-cnt", "bug", ["C16"], [(IOS, "        mh.msg_iovlen -= i;\n", "", "hev_task_io_socket_recvmsg")]),
    ("io-vec-len", "bug", ["C16"], [(IOS, "                mh.msg_iov[i].iov_len -= s;\n", "", "hev_task_io_socket_sendmsg")]),
    ("io-vec-res", "bug", ["C16"], [(CIO, "iovp[i].iov_base += res;", "iovp[i].iov_base += size;", "hev_task_cio_writev_exact")]),
    ("io-vec-sub", "bug", ["C16"], [(CIO, "            res -= iovp[i].iov_len;\n", "", "hev_task_cio_readv_exact")]),
    ("io-vec-total", "bug", ["C16"], [(CIO, "len += iov[i].iov_len;", "len = iov[i].iov_len;", "hev_task_cio_readv_exact")]),
    ("io-vec-caller", "bug", ["C16"], [(CIO, "    struct iovec *iovp = iovw;", "    struct iovec *iovp = (struct iovec *)iov;", "hev_task_cio_writev_exact"), (CIO, "struct iovec iovw[iovcnt];", "", "hev_task_cio_writev_exact")]),
    ("io-vec-order", "bug", ["C16"], [(CIO, "        iovp += i;\n        iovcnt -= i;\n", "        iovcnt -= i;\n        iovp += iovcnt;\n", "hev_task_cio_writev_exact")]),
    ("io-ctl", "bug", ["C16"], [(IOS, "        mh.msg_control = NULL;\n        mh.msg_controllen = 0;\n", "", "hev_task_io_socket_sendmsg")]),
    ("io-exact-zero", "bug", ["C16"], [(CIO, "if (res <= 0) {", "if (res < 0) {", "hev_task_cio_write_exact")]),
    ("s-io-loop", "same", [], [(IOB, """retry:
    s = read (fd, buf, count);
    if (s < 0 && errno == EAGAIN) {
        if (yielder) {
            if (yielder (HEV_TASK_WAITIO, yielder_data))
                return -2;
        } else {
            hev_task_yield (HEV_TASK_WAITIO);
        }
        goto retry;
    }

    return s;""", """    while ((s = read (fd, buf, count)) < 0) {
        if (errno != EAGAIN)
            break;
        if (!yielder)
            hev_task_yield (HEV_TASK_WAITIO);
        else if (yielder (HEV_TASK_WAITIO, yielder_data) != 0)
            return -2;
    }

    return s;""")]),
    ("s-io-helper", "same", [], [(IOS, "EXPORT_SYMBOL int\nhev_task_io_socket_socket", """static int
wait_io (HevTaskIOYielder yielder, void *yielder_data)
{
    if (yielder)
        return yielder (HEV_TASK_WAITIO, yielder_data);

    hev_task_yield (HEV_TASK_WAITIO);
    return 0;
}

EXPORT_SYMBOL int
hev_task_io_socket_socket"""), (IOS, """        if (yielder) {
            if (yielder (HEV_TASK_WAITIO, yielder_data))
                return -2;
        } else {
            hev_task_yield (HEV_TASK_WAITIO);
        }
        goto retry;""", """        if (wait_io (yielder, yielder_data))
            return -2;
        goto retry;""", "hev_task_io_socket_recvmsg"), (IOS, """        if (yielder) {
            if (yielder (HEV_TASK_WAITIO, yielder_data))
                return -2;
        } else {
            hev_task_yield (HEV_TASK_WAITIO);
        }
        goto retry;""", """        if (wait_io (yielder, yielder_data))
            return -2;
        goto retry;""", "hev_task_io_socket_send")]),
    ("s-io-rest", "same", [], [(IOS, """    ssize_t s;
    size_t size = 0;

retry:
    s = recv (fd, buf + size, len - size, flags & ~MSG_WAITALL);""", """    ssize_t s;
    char *pos = buf;
    size_t left = len;
    const int all = flags & MSG_WAITALL;

    flags &= ~MSG_WAITALL;
retry:
    s = recv (fd, pos, left, flags);"""), (IOS, """    if (!(flags & MSG_WAITALL))
        return s;

    if (s <= 0) {
        if (size)
            return size;
        return s;
    }

    size += s;
    if (size < len)
        goto retry;

    return size;
""", """    if (!all)
        return s;

    if (s > 0) {
        pos += s;
        left -= s;
        if (left > 0)
            goto retry;
        return len;
    }

    return left != len ? len - left : s;
""", "hev_task_io_socket_recv")]),
    ("s-io-vechelper", "same", [], [(CIO, "EXPORT_SYMBOL ssize_t\nhev_task_cio_readv_exact", """static int
advance (struct iovec *v, int n, size_t done)
{
    int i;

    for (i = 0; i < n && done >= v[i].iov_len; i++)
        done -= v[i].iov_len;

    if (i < n) {
        v[i].iov_base = (char *)v[i].iov_base + done;
        v[i].iov_len -= done;
    }

    return i;
}

EXPORT_SYMBOL ssize_t
hev_task_cio_readv_exact"""), (CIO, """        for (i = 0; i < iovcnt; i++) {
            if (res < iovp[i].iov_len) {
                iovp[i].iov_base += res;
                iovp[i].iov_len -= res;
                break;
            }

            res -= iovp[i].iov_len;
        }
""", "        i = advance (iovp, iovcnt, res);\n", "hev_task_cio_readv_exact"), (CIO, """        for (i = 0; i < iovcnt; i++) {
            if (res < iovp[i].iov_len) {
                iovp[i].iov_base += res;
                iovp[i].iov_len -= res;
                break;
            }

            res -= iovp[i].iov_len;
        }
""", "        i = advance (iovp, iovcnt, res);\n", "hev_task_cio_writev_exact")]),
    ("s-io-vecptr", "same", [], [(CIO, """        for (i = 0; i < iovcnt; i++) {
            if (res < iovp[i].iov_len) {
                iovp[i].iov_base += res;
                iovp[i].iov_len -= res;
                break;
            }

            res -= iovp[i].iov_len;
        }

        iovp += i;
        iovcnt -= i;
""", """        while (iovcnt > 0 && res >= iovp->iov_len) {
            res -= iovp->iov_len;
            iovp++;
            iovcnt--;
        }

        if (iovcnt > 0) {
            iovp->iov_base += res;
            iovp->iov_len -= res;
        }
""", "hev_task_cio_writev_exact")]),
    ("s-io-memcpy", "same", [], [(CIO, """    for (i = 0; i < iovcnt; i++) {
        iovp[i] = iov[i];
        len += iov[i].iov_len;
    }
""", """    memcpy (iovw, iov, sizeof (struct iovec) * iovcnt);
    for (i = 0; i < iovcnt; i++)
        len += iovw[i].iov_len;
""", "hev_task_cio_writev_exact")]),
    ("s-io-mhcopy", "same", [], [(IOS, """    mh.msg_name = msg->msg_name;
    mh.msg_namelen = msg->msg_namelen;
    mh.msg_control = msg->msg_control;
    mh.msg_controllen = msg->msg_controllen;
    mh.msg_flags = msg->msg_flags;
    mh.msg_iov = iov;
    mh.msg_iovlen = msg->msg_iovlen;
""", """    mh = *msg;
    mh.msg_iov = iov;
""", "hev_task_io_socket_recvmsg")]),
    ("s-io-order", "same", [], [(IOS, """                mh.msg_iov[i].iov_base += s;
                mh.msg_iov[i].iov_len -= s;
""", """                struct iovec *v = &mh.msg_iov[i];
                v->iov_len -= s;
                v->iov_base += s;
""", "hev_task_io_socket_sendmsg"), (IOS, """        mh.msg_iov += i;
        mh.msg_iovlen -= i;
        mh.msg_control = NULL;
        mh.msg_controllen = 0;
""", """        mh.msg_control = NULL;
        mh.msg_controllen = 0;
        mh.msg_iovlen -= i;
        mh.msg_iov += i;
""", "hev_task_io_socket_sendmsg")]),
    ("s-io-conn", "same", [], [(IOS, """    ret = connect (fd, addr, addr_len);
    if (ret < 0) {
        if (errno == EINPROGRESS || errno == EALREADY) {
            if (yielder) {
                if (yielder (HEV_TASK_WAITIO, yielder_data))
                    return -2;
            } else {
                hev_task_yield (HEV_TASK_WAITIO);
            }
            goto retry;
        } else if (errno == EISCONN) {
            ret = 0;
        }
    }

    return ret;""", """    ret = connect (fd, addr, addr_len);
    if (ret >= 0)
        return ret;

    switch (errno) {
    case EISCONN:
        return 0;
    case EINPROGRESS:
    case EALREADY:
        break;
    default:
        return ret;
    }

    if (yielder) {
        if (yielder (HEV_TASK_WAITIO, yielder_data))
            return -2;
    } else {
        hev_task_yield (HEV_TASK_WAITIO);
    }
    goto retry;""")]),
    ("s-io-errno", "same", [], [(IOB, "if (s < 0 && errno == EAGAIN)", "if (s == -1 && errno == EWOULDBLOCK)", "hev_task_io_readv")]),
    ("fd-open", "bug", ["C17"], [(IOB, "    flags |= O_NONBLOCK;\n", "", "hev_task_io_openat")]),
    ("fd-open2", "bug", ["C17"], [(IOB, "    return openat (dirfd, pathname, flags);", "    return openat (dirfd, pathname, flags & ~O_NONBLOCK);")]),
    ("fd-dupleak", "bug", ["C17"], [(IOB, "        close (newfd);\n", "", "hev_task_io_dup")]),
    ("fd-dupold", "bug", ["C17"], [(IOB, "        close (newfd);\n", "        close (oldfd);\n", "hev_task_io_dup")]),
    ("fd-dup-old-nb", "bug", ["C17"], [(IOB, "ioctl (newfd, FIONBIO", "ioctl (oldfd, FIONBIO", "hev_task_io_dup2")]),
    ("fd-pair", "bug", ["C17"], [(IOS, "        close (socket_vector[1]);\n        return -2;", "        return -2;")]),
    ("fd-pairtwice", "bug", ["C17"], [(IOP, "        close (pipefd[0]);\n        close (pipefd[1]);\n        return -3;", "        close (pipefd[0]);\n        close (pipefd[0]);\n        return -3;")]),
    ("fd-acc", "bug", ["C17"], [(IOS, "    if (new_fd >= 0) {", "    if (new_fd > 0) {")]),
    ("fd-accret", "bug", ["C17"], [(IOS, "            close (new_fd);\n            return -3;", "            close (new_fd);")]),
    ("fd-nbzero", "bug", ["C17"], [(IOS, "int fd, nonblock = 1;", "int fd, nonblock = 0;")]),
    ("fd-pair1", "bug", ["C17"], [(IOP, "ioctl (pipefd[1], FIONBIO", "ioctl (pipefd[0], FIONBIO")]),
    ("s-fd-flag", "same", [], [(IOS, "    fd = socket (domain, type, protocol);\n    if (0 > fd)\n        return fd;\n", "    fd = socket (domain, type | SOCK_NONBLOCK, protocol);\n    return fd;\n"), (IOS, "    int fd, nonblock = 1;\n", "    int fd;\n"), (IOS, "    if (0 > ioctl (fd, FIONBIO, (char *)&nonblock)) {\n        close (fd);\n        return -2;\n    }\n\n    return fd;\n", "")]),
    ("s-fd-helper", "same", [], [(IOP, "EXPORT_SYMBOL int\nhev_task_io_pipe_pipe", "static int\nset_nb (int fd)\n{\n    int on = 1;\n\n    return ioctl (fd, FIONBIO, (char *)&on);\n}\n\nEXPORT_SYMBOL int\nhev_task_io_pipe_pipe"), (IOP, """    int nonblock = 1;

    if (0 > pipe (pipefd))
        return -1;

    if (0 > ioctl (pipefd[0], FIONBIO, (char *)&nonblock)) {
        close (pipefd[0]);
        close (pipefd[1]);
        return -2;
    }

    if (0 > ioctl (pipefd[1], FIONBIO, (char *)&nonblock)) {
        close (pipefd[0]);
        close (pipefd[1]);
        return -3;
    }

    return 0;""", """    int res;

    res = pipe (pipefd);
    if (res != 0)
        return -1;

    if (set_nb (pipefd[0]) < 0)
        res = -2;
    else if (set_nb (pipefd[1]) < 0)
        res = -3;

    if (res) {
        close (pipefd[1]);
        close (pipefd[0]);
    }

    return res;""")]),
    ("s-fd-loop", "same", [], [(IOS, """    if (0 > ioctl (socket_vector[0], FIONBIO, (char *)&nonblock)) {
        close (socket_vector[0]);
        close (socket_vector[1]);
        return -2;
    }

    if (0 > ioctl (socket_vector[1], FIONBIO, (char *)&nonblock)) {
        close (socket_vector[0]);
        close (socket_vector[1]);
        return -3;
    }

    return 0;""", """    for (int i = 0; i < 2; i++) {
        if (0 > ioctl (socket_vector[i], FIONBIO, (char *)&nonblock)) {
            close (socket_vector[0]);
            close (socket_vector[1]);
            return -2 - i;
        }
    }

    return 0;""")]),
    ("s-fd-fcntl", "same", [], [(IOB, "    if (0 > ioctl (newfd, FIONBIO, (char *)&nonblock)) {\n        close", "    int fl = fcntl (newfd, F_GETFL);\n    (void)nonblock;\n    if (0 > fl || 0 > fcntl (newfd, F_SETFL, fl | O_NONBLOCK)) {\n        close")]),
    ("spl-eofdrop", "bug", ["C19"], [(IOB, "            res = 1;\n            hev_circular_buffer_read_finish (self->buf, s);", "            hev_circular_buffer_read_finish (self->buf, s);")]),
    ("spl-wait", "bug", ["C19"], [(IOB, "if (res_f > 0 || res_b > 0)", "if (res_f > 0 && res_b > 0)")]),
    ("spl-stop", "bug", ["C19"], [(IOB, "            if (res_f < 0 && res_b < 0)\n", "            if (res_f < 0 || res_b < 0)\n")]),
    ("spl-nosingle", "bug", ["C19"], [(IOB, "if (fd_a_i == fd_a_o || fd_b_i == fd_b_o)", "if (fd_a_i == fd_a_o && fd_b_i == fd_b_o)")]),
    ("spl-wlen", "bug", ["C19"], [(IOB, "            self->wlen -= s;", "            self->wlen = 0;")]),
    ("spl-wlen2", "bug", ["C19"], [(IOB, "        self->wlen += s;", "        self->wlen = s;")]),
    ("spl-eagain", "bug", ["C19"], [(IOB, "        if (0 >= s) {\n            if ((0 > s) && (EAGAIN == errno))\n                res = 0;\n            else\n                res = -1;\n        } else {\n            res = 1;\n            self->wlen", "        if (0 >= s) {\n            res = -1;\n        } else {\n            res = 1;\n            self->wlen")]),
    ("spl-leak", "bug", ["C19"], [(IOB, "        goto exit;\n\n    for (;;)", "        return;\n\n    for (;;)"), (IOB, "exit:\n    task_io_splicer_fini (&splicer_f);", "    task_io_splicer_fini (&splicer_f);")]),
    ("spl-cross", "bug", ["C19"], [(IOB, "res_b = task_io_splice (&splicer_b, fd_b_i, fd_a_o);", "res_b = task_io_splice (&splicer_f, fd_b_i, fd_a_o);")]),
    ("spl-dir", "bug", ["C19"], [(IOB, "res_b = task_io_splice (&splicer_b, fd_b_i, fd_a_o);", "res_b = task_io_splice (&splicer_b, fd_b_i, fd_a_i);")]),
    ("spl-gate", "bug", ["C19"], [(IOB, "        if (res_f >= 0)\n            res_f", "        if (res_f > 0)\n            res_f")]),
    ("spl-yret", "bug", ["C19"], [(IOB, "            if (yielder (type, yielder_data))\n                break;", "            yielder (type, yielder_data);")]),
    ("spl-cio-next", "bug", ["C19"], [(CIO, "&& !a->next && !b->next)", "&& !a->next)")]),
    ("spl-cio-flush", "bug", ["C19"], [(CIO, "    if (okptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL) < 0 &&\n        o->err == EAGAIN)\n        res = 0;\n", "    if (res > 0)\n        okptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);\n")]),
    ("spl-cio-unref", "bug", ["C19"], [(CIO, "    hev_circular_buffer_unref (buf_b);\nexit:", "exit:")]),
    ("spl-cio-err", "bug", ["C19"], [(CIO, "if ((0 > s) && (o->err == EAGAIN))", "if ((0 > s) && (i->err == EAGAIN))")]),
    ("spl-cio-fin", "bug", ["C19"], [(CIO, "            hev_circular_buffer_read_finish (buf, s);\n            res = 1;", "            hev_circular_buffer_read_finish (buf, s);")]),
    ("s-spl-inline", "same", [], [(IOB, "        if (res_f > 0 || res_b > 0)\n            type = HEV_TASK_YIELD;\n        else\n            type = HEV_TASK_WAITIO;\n", "        type = HEV_TASK_WAITIO;\n        if (res_b > 0 || res_f > 0)\n            type = HEV_TASK_YIELD;\n")]),
    ("s-spl-single", "same", [], [(IOB, "        if (fd_a_i == fd_a_o || fd_b_i == fd_b_o) {\n            if (res_f < 0 || res_b < 0)\n                break;\n        } else {\n            if (res_f < 0 && res_b < 0)\n                break;\n        }\n", "        if (single ? (res_f < 0 || res_b < 0) : (res_f < 0 && res_b < 0))\n            break;\n"), (IOB, "    int res_b = 1;\n", "    int res_b = 1;\n    int single = fd_a_i == fd_a_o || fd_b_i == fd_b_o;\n", "hev_task_io_splice")]),
    ("s-spl-order", "same", [], [(IOB, "        if (res_f >= 0)\n            res_f = task_io_splice (&splicer_f, fd_a_i, fd_b_o);\n        if (res_b >= 0)\n            res_b = task_io_splice (&splicer_b, fd_b_i, fd_a_o);\n", "        if (res_b >= 0)\n            res_b = task_io_splice (&splicer_b, fd_b_i, fd_a_o);\n        if (!(res_f < 0))\n            res_f = task_io_splice (&splicer_f, fd_a_i, fd_b_o);\n")]),
    ("s-spl-helper", "same", [], [(IOB, "static int\ntask_io_splice (HevTaskIOSplicer *self, int fd_in, int fd_out)\n{\n    int res;\n", "static int\nstep_result (ssize_t s)\n{\n    if (s > 0)\n        return 1;\n    return (s < 0 && errno == EAGAIN) ? 0 : -1;\n}\n\nstatic int\ntask_io_splice (HevTaskIOSplicer *self, int fd_in, int fd_out)\n{\n    int res;\n"), (IOB, "    if (0 >= s) {\n        if ((0 > s) && (EAGAIN == errno))\n            res = 0;\n        else\n            res = -1;\n    } else {\n        res = 1;\n        self->wlen += s;\n    }\n", "    res = step_result (s);\n    if (res > 0)\n        self->wlen += s;\n")]),
    ("s-spl-nogate", "same", [], [(CIO, "        if (res_f >= 0)\n            res_f = task_cio_splice (buf_f, a, b);\n        if (res_b >= 0)\n            res_b = task_cio_splice (buf_b, b, a);\n", "        res_f = task_cio_splice (buf_f, a, b);\n        res_b = task_cio_splice (buf_b, b, a);\n")]),
    ("s-spl-while", "same", [], [(CIO, "    for (;;) {\n        HevTaskYieldType type;\n\n        if (res_f >= 0)\n            res_f = task_cio_splice (buf_f, a, b);\n        if (res_b >= 0)\n            res_b = task_cio_splice (buf_b, b, a);\n\n        if (res_f < 0 || res_b < 0)\n            break;\n", "    while (1) {\n        HevTaskYieldType type;\n\n        res_f = task_cio_splice (buf_f, a, b);\n        res_b = task_cio_splice (buf_b, b, a);\n        if (res_b < 0)\n            break;\n        if (res_f < 0)\n            break;\n")]),
    ("s-spl-fds", "same", [], [(CIO, "if (((fai | fao | fbi | fbo) >= 0) && !a->next && !b->next) {", "if (!b->next && !a->next && fai >= 0 && fao >= 0 && fbi >= 0 && fbo >= 0) {")]),
    ("rea-noet", "bug", ["C30"], [(EPH, "events | EPOLLET;", "events;")]),
    ("rea-err", "bug", ["C30"], [(EPH, "    if (poll_events & POLLERR)\n        reactor_events |= HEV_TASK_IO_REACTOR_EV_ER;\n", "")]),
    ("rea-out", "bug", ["C30"], [(EPH, "    if (poll_events & POLLOUT)", "    else if (poll_events & POLLOUT)")]),
    ("rea-oneshot", "bug", ["C30"], [(EPH, "events | EPOLLET;", "events | EPOLLET | EPOLLONESHOT;")]),
    ("rea-res", "bug", ["C30"], [(EPC, "        res |= epoll_ctl", "        epoll_ctl")]),
    ("rea-modadd", "bug", ["C30"], [(TASK, "HEV_TASK_IO_REACTOR_OP_MOD", "HEV_TASK_IO_REACTOR_OP_ADD")]),
    ("rea-del", "bug", ["C30"], [(TASK, "HEV_TASK_IO_REACTOR_OP_DEL, 0, NULL", "HEV_TASK_IO_REACTOR_OP_MOD, 0, NULL")]),
    ("rea-self", "bug", ["C30"], [(TASK, "HEV_TASK_IO_REACTOR_OP_ADD, events, &self->sched_entity);", "HEV_TASK_IO_REACTOR_OP_ADD, events,\n        &hev_task_system_get_context ()->current_task->sched_entity);")]),
    ("poll-watch1", "bug", ["C30"], [(POL, "for (i = 0; i < nfds; i++)", "for (i = 1; i < nfds; i++)")]),
    ("poll-noadd", "bug", ["C30"], [(POL, " &&\n                hev_task_add_fd (task, fds[i].fd, fds[i].events) < 0) {", ") {")]),
    ("poll-norest", "bug", ["C30"], [(POL, "timeout = hev_task_sleep (timeout);", "hev_task_sleep (timeout);")]),
    ("poll-once", "bug", ["C30"], [(POL, "            while (timeout > 0 && res == 0) {\n", "            if (timeout > 0 && res == 0) {\n")]),
    ("poll-once2", "bug", ["C30"], [(POL, "            while (res == 0) {\n", "            if (res == 0) {\n")]),
    ("poll-nopoll", "bug", ["C30"], [(POL, "                timeout = hev_task_sleep (timeout);\n                res = poll (fds, nfds, 0);", "                timeout = hev_task_sleep (timeout);\n                if (timeout > 0)\n                    res = poll (fds, nfds, 0);")]),
    ("poll-neg", "bug", ["C30"], [(POL, "            while (res == 0) {", "            while (res <= 0) {")]),
    ("poll-break", "bug", ["C30"], [(POL, "                res = poll (fds, nfds, 0);\n            }\n        }\n\n", "                res = poll (fds, nfds, 0);\n                break;\n            }\n        }\n\n")]),
    ("s-rea-mask", "same", [], [(EPH, "    if (poll_events & POLLIN)\n        reactor_events |= HEV_TASK_IO_REACTOR_EV_RO;\n    if (poll_events & POLLOUT)\n        reactor_events |= HEV_TASK_IO_REACTOR_EV_WO;\n    if (poll_events & POLLERR)\n        reactor_events |= HEV_TASK_IO_REACTOR_EV_ER;\n", "    reactor_events = poll_events & (POLLIN | POLLOUT | POLLERR);\n")]),
    ("s-rea-helper", "same", [], [(TASK, "EXPORT_SYMBOL int\nhev_task_add_fd", "static int\nsetup_fd (HevTask *self, int fd, int op, unsigned int events)\n{\n    HevTaskIOReactorSetupEvent revents[HEV_TASK_IO_REACTOR_EVENT_GEN_MAX];\n    HevTaskSystemContext *ctx = hev_task_system_get_context ();\n    int count;\n\n    count = hev_task_io_reactor_setup_event_gen (revents, fd, op, events, &self->sched_entity);\n    return hev_task_io_reactor_setup (ctx->reactor, revents, count);\n}\n\nEXPORT_SYMBOL int\nhev_task_add_fd"), (TASK, """    HevTaskIOReactor *reactor;
    HevTaskIOReactorSetupEvent revents[HEV_TASK_IO_REACTOR_EVENT_GEN_MAX];
    int count;

    reactor = hev_task_system_get_context ()->reactor;
    count = hev_task_io_reactor_setup_event_gen (
        revents, fd, HEV_TASK_IO_REACTOR_OP_MOD, events, &self->sched_entity);
    return hev_task_io_reactor_setup (reactor, revents, count);""", "    return setup_fd (self, fd, HEV_TASK_IO_REACTOR_OP_MOD, events);")]),
    ("s-rea-res", "same", [], [(EPC, "        res |= epoll_ctl (self->fd, ev->op, ev->fd, &ev->event);", "        if (epoll_ctl (self->fd, ev->op, ev->fd, &ev->event) < 0)\n            res = -1;")]),
    ("s-poll-for", "same", [], [(POL, "            while (timeout > 0 && res == 0) {\n                timeout = hev_task_sleep (timeout);\n                res = poll (fds, nfds, 0);\n            }", "            for (; !res && timeout > 0; res = poll (fds, nfds, 0))\n                timeout = hev_task_sleep (timeout);")]),
    ("s-poll-do", "same", [], [(POL, "            while (res == 0) {\n                hev_task_yield (HEV_TASK_WAITIO);\n                res = poll (fds, nfds, 0);\n            }", "            for (;;) {\n                if (res != 0)\n                    break;\n                hev_task_yield (HEV_TASK_WAITIO);\n                res = poll (fds, nfds, 0);\n            }")]),
    ("s-poll-ptr", "same", [], [(POL, """        for (i = 0; i < nfds; i++) {
            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&
                hev_task_add_fd (task, fds[i].fd, fds[i].events) < 0) {""", """        HevTaskIOPollFD *f = fds;
        for (i = nfds; i > 0; i--, f++) {
            int r = hev_task_mod_fd (task, f->fd, f->events);
            if (r < 0)
                r = hev_task_add_fd (task, f->fd, f->events);
            if (r < 0) {""")]),
    ("s-poll-early", "same", [], [(POL, "    if (timeout == 0) {\n        res = poll (fds, nfds, 0);\n    } else {", "    if (timeout == 0)\n        return poll (fds, nfds, 0);\n    {")]),
    ("ring-lt", "bug", ["C20"], [(CBF, "if (self->use_size <= upper_size)", "if (self->use_size < upper_size)")]),
    ("ring-wle", "bug", ["C20"], [(CBF, "if (spc_size <= upper_size)", "if (spc_size < upper_size)")]),
    ("ring-upper", "bug", ["C20"], [(CBF, "size_t upper_size = self->max_size - wp;", "size_t upper_size = self->max_size - self->rp;")]),
    ("s-ring-rp", "same", [], [(CBF, "iov[1].iov_len = spc_size - upper_size;", "iov[1].iov_len = self->rp;")]),
    ("ring-wlen2", "bug", ["C20"], [(CBF, "iov[1].iov_len = spc_size - upper_size;", "iov[1].iov_len = spc_size - upper_size - 1;")]),
    ("ring-full", "bug", ["C20"], [(CBF, "    if (self->use_size == self->max_size)\n        return 0;\n", "    if (self->use_size + 1 >= self->max_size)\n        return 0;\n")]),
    ("ring-empty", "bug", ["C20"], [(CBF, "    if (0 == self->use_size)\n        return 0;\n", "")]),
    ("ring-modless", "bug", ["C20"], [(CBF, "self->rp = (self->rp + size) % self->max_size;", "self->rp += size;\n    if (self->rp > self->max_size)\n        self->rp -= self->max_size;")]),
    ("ring-reset", "bug", ["C20"], [(CBF, "    self->use_size += size;", "    if (!self->use_size)\n        self->rp = 0;\n    self->use_size += size;")]),
    ("ring-alloc", "bug", ["C20"], [(CBF, "hev_malloc (sizeof (HevCircularBuffer) + max_size)", "hev_malloc (sizeof (HevCircularBuffer) + (unsigned int)max_size)")]),
    ("ring-unref", "bug", ["C20"], [(CBF, "    self->ref_count--;\n    if (self->ref_count)\n        return;\n", "    if (self->ref_count--)\n        return;\n")]),
    ("ring-usesz", "bug", ["C20"], [(CBF, "    return self->use_size;", "    return self->max_size - self->use_size;")]),
    ("s-ring-sub", "same", [], [(CBF, "self->rp = (self->rp + size) % self->max_size;", "self->rp += size;\n    if (self->rp >= self->max_size)\n        self->rp -= self->max_size;")]),
    ("s-ring-zero", "same", [], [(CBF, "    self->use_size -= size;", "    self->use_size -= size;\n    if (!self->use_size)\n        self->rp = 0;")]),
    ("s-ring-min", "same", [], [(CBF, """    iov[0].iov_base = self->data + wp;
    if (spc_size <= upper_size) {
        iov[0].iov_len = spc_size;
        return 1;
    }

    iov[0].iov_len = upper_size;
    iov[1].iov_base = self->data;
    iov[1].iov_len = spc_size - upper_size;
    return 2;""", """    iov[0].iov_base = self->data + wp;
    iov[0].iov_len = (spc_size < upper_size) ? spc_size : upper_size;
    if (iov[0].iov_len == spc_size)
        return 1;
    iov[1].iov_base = self->data;
    iov[1].iov_len = self->rp;
    return 2;""")]),
    ("s-ring-wp", "same", [], [(CBF, "size_t wp = (self->rp + self->use_size) % self->max_size;", "size_t wp = self->rp + self->use_size;\n    if (wp >= self->max_size)\n        wp -= self->max_size;")]),
    ("s-ring-helper", "same", [], [(CBF, "EXPORT_SYMBOL int\nhev_circular_buffer_reading", """static int
fill (HevCircularBuffer *self, struct iovec *iov, size_t pos, size_t len)
{
    size_t upper = self->max_size - pos;
    int n = 1;

    if (!len)
        return 0;
    iov->iov_base = &self->data[pos];
    iov->iov_len = len;
    if (len > upper) {
        iov->iov_len = upper;
        iov[n].iov_base = self->data;
        iov[n].iov_len = len - upper;
        n++;
    }
    return n;
}

EXPORT_SYMBOL int
hev_circular_buffer_reading"""), (CBF, """    size_t upper_size = self->max_size - self->rp;

    if (0 == self->use_size)
        return 0;

    iov[0].iov_base = self->data + self->rp;
    if (self->use_size <= upper_size) {
        iov[0].iov_len = self->use_size;
        return 1;
    }

    iov[0].iov_len = upper_size;
    iov[1].iov_base = self->data;
    iov[1].iov_len = self->use_size - upper_size;
    return 2;""", "    return fill (self, iov, self->rp, self->use_size);")]),
    ("s-ring-new", "same", [], [(CBF, "    self = hev_malloc (sizeof (HevCircularBuffer) + max_size);\n    if (!self)\n        return NULL;\n\n    self->rp = 0;\n    self->use_size = 0;\n", "    self = hev_malloc0 (max_size + sizeof (*self));\n    if (NULL == self)\n        return self;\n\n")]),
    ("s-ring-unref", "same", [], [(CBF, "    self->ref_count--;\n    if (self->ref_count)\n        return;\n\n    hev_free (self);", "    if (self->ref_count == 1)\n        hev_free (self);\n    else\n        self->ref_count -= 1;")]),
    ("cio-err", "bug", ["C21"], [(CIFD, "    res = writev (self->fdo, iov, iovcnt);\n    base->err = errno;\n", "    res = writev (self->fdo, iov, iovcnt);\n    if (res >= 0)\n        base->err = errno;\n")]),
    ("cio-fdo", "bug", ["C21"], [(CIFD, "res = writev (self->fdo, iov, iovcnt);", "res = writev (self->fdi, iov, iovcnt);")]),
    ("cio-getfd", "bug", ["C21"], [(CIFD, "        if (larg)\n            return self->fdo;\n", "")]),
    ("cio-order", "bug", ["C22"], [(CISO, "    memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));\n\n    okptr->name", "    okptr->name"), (CISO, "    ckptr = &kptr->base;\n", "    ckptr = &kptr->base;\n    memcpy (&ckptr->readv_dgram, &((HevTaskCIOClass *)HEV_TASK_CIO_TYPE)->readv_dgram, 16);\n")]),
    ("cio-slot", "bug", ["C21"], [(CISO, "ckptr->writev_dgram = _hev_task_cio_socket_writev_dgram;", "ckptr->writev_dgram = (void *)_hev_task_cio_socket_readv_dgram;")]),
    ("cio-noslot", "bug", ["C21"], [(CIBU, "    ckptr->readv = _hev_task_cio_buffer_readv;\n", "")]),
    ("cio-nexterr", "bug", ["C21"], [(CIH, "    res = nkptr->writev (next, iov, iovcnt);\n    self->err = next->err;", "    res = nkptr->writev (next, iov, iovcnt);\n    if (res > 0)\n        self->err = next->err;")]),
    ("cio-nextctrl", "bug", ["C21"], [(CIH, "res = nkptr->ctrl (next, ctrl, larg, parg);", "res = nkptr->ctrl (next, ctrl, 0, parg);")]),
    ("cio-nextnone", "bug", ["C21"], [(CIH, "    if (!next) {\n        self->err = 0;\n        return -1;\n    }\n\n    nkptr = HEV_OBJECT_GET_CLASS (next);\n    res = nkptr->readv (next", "    if (!next)\n        return -1;\n\n    nkptr = HEV_OBJECT_GET_CLASS (next);\n    res = nkptr->readv (next")]),
    ("cio-again", "bug", ["C21"], [(CIBU, "        base->err = EAGAIN;\n", "")]),
    ("cio-ctrlflush", "bug", ["C21", "C23"], [(CIBU, "        res = _hev_task_cio_buffer_flush (self);\n        if (res < 0)\n            return res;\n    }\n\n    return hev_task_cio_next_ctrl", "        return _hev_task_cio_buffer_flush (self);\n    }\n\n    return hev_task_cio_next_ctrl")]),
    ("cio-alen", "bug", ["C21"], [(CISO, "sizeof (struct sockaddr_in6)", "sizeof (struct sockaddr_in)")]),
    ("cio-msg", "bug", ["C21"], [(CISO, "    mh.msg_namelen = self->alen;\n    mh.msg_iov = (struct iovec *)iov;\n    mh.msg_iovlen = iovcnt;\n\n    res = sendmsg", "    mh.msg_iov = (struct iovec *)iov;\n    mh.msg_iovlen = iovcnt;\n\n    res = sendmsg")]),
    ("cio-null", "bug", ["C21"], [(CINU, "for (i = 0; i < iovcnt; i++)", "for (i = 1; i < iovcnt; i++)")]),
    ("cio-klass", "bug", ["C21"], [(CIBU, "    HEV_OBJECT (self)->klass = HEV_TASK_CIO_BUFFER_TYPE;\n", "")]),
    ("cio-fddup", "bug", ["C22"], [(CIFD, "    if (self->fdi >= 0)\n", "    if (self->fdi > 0)\n")]),
    ("cio-nofree", "bug", ["C22"], [(CIBU, "    if (self->wbuf)\n        hev_circular_buffer_unref (self->wbuf);\n\n    HEV_TASK", "    HEV_TASK")]),
    ("cio-leaknext", "bug", ["C22"], [(CISO, "    HEV_TASK_CIO_TYPE->destruct (base);\n", "")]),
    ("cio-early", "bug", ["C22"], [(CISO, "    HEV_TASK_CIO_TYPE->destruct (base);\n    hev_free (base);\n", "    hev_free (base);\n    HEV_TASK_CIO_TYPE->destruct (base);\n")]),
    ("cio-popnext", "bug", ["C22"], [(CIO, "    self->next = NULL;\n    hev_object_unref", "    hev_object_unref")]),
    ("cio-popself", "bug", ["C22"], [(CIO, "    self->next = NULL;\n    hev_object_unref (HEV_OBJECT (self));", "    hev_object_unref (HEV_OBJECT (self));\n    self->next = NULL;")]),
    ("cio-nodestruct", "bug", ["C22"], [(CINU, "    okptr->destruct = _hev_task_cio_null_destruct;\n", "")]),
    ("ref-obj", "bug", ["C26", "C22"], [(OBJ, "    self->ref_count--;\n    if (self->ref_count)\n        return;\n", "    if (self->ref_count-- > 2)\n        return;\n")]),
    ("ref-atomrd", "bug", ["C26"], [(OBA, "    if (rc > 1)\n        return;", "    if (base->ref_count)\n        return;")]),
    ("ref-atomkl", "bug", ["C26"], [(OBA, "    kptr->destruct (base);", "    kptr->destruct (base);\n    base->klass = NULL;")]),
    ("ref-atomslot", "bug", ["C26"], [(OBA, "    okptr->ref = _hev_object_atomic_ref;\n", "")]),
    ("ref-atomge", "bug", ["C26"], [(OBA, "if (rc > 1)", "if (rc > 2)")]),
    ("ref-alloc", "bug", ["C26"], [("src/mem/base/hev-memory-allocator.c", "if (0 < self->ref_count)", "if (1 < self->ref_count)")]),
    ("ref-taskstk", "bug", ["C26"], [(TASK, "    hev_task_stack_destroy (self->stack);\n    hev_free (self);", "    hev_free (self);\n    hev_task_stack_destroy (self->stack);")]),
    ("ref-taskown", "bug", ["C26"], [(TASK, "    hev_list_del (&hev_task_system_get_context ()->all_tasks, &self->list_node);\n", "")]),
    ("s-cio-err", "same", [], [(CIFD, "    res = writev (self->fdo, iov, iovcnt);\n    base->err = errno;\n", "    res = writev (self->fdo, iov, iovcnt);\n    if (res < 0)\n        base->err = errno;\n")]),
    ("s-cio-helper", "same", [], [(CIFD, "static ssize_t\n_hev_task_cio_fd_read ", "static ssize_t\ndone (HevTaskCIO *base, ssize_t res)\n{\n    base->err = errno;\n    return res;\n}\n\nstatic ssize_t\n_hev_task_cio_fd_read "), (CIFD, "    ssize_t res;\n\n    res = read (self->fdi, buf, count);\n    base->err = errno;\n\n    return res;", "    return done (base, read (self->fdi, buf, count));")]),
    ("s-cio-ctrl", "same", [], [(CISO, "    switch (ctrl) {\n    case HEV_TASK_CIO_CTRL_FLUSH:\n        return 0;\n    case HEV_TASK_CIO_CTRL_GET_FD:\n        return self->fd;\n    }\n\n    return -1;", "    if (ctrl == HEV_TASK_CIO_CTRL_GET_FD)\n        return self->fd;\n    return (ctrl == HEV_TASK_CIO_CTRL_FLUSH) ? 0 : -1;")]),
    ("s-cio-klass", "same", [], [(CIBU, "    memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));\n\n    okptr->name", "    *(HevTaskCIOClass *)kptr = *(HevTaskCIOClass *)HEV_TASK_CIO_TYPE;\n\n    okptr->name")]),
    ("s-cio-null", "same", [], [(CINU, "    for (i = 0; i < iovcnt; i++)\n        res += iov[i].iov_len;", "    i = iovcnt;\n    while (i-- > 0)\n        res += (iov++)->iov_len;")]),
    ("s-cio-dest", "same", [], [(CIFD, "    if (self->fdi >= 0)\n        close (self->fdi);\n    if (self->fdo >= 0 && self->fdo != self->fdi)\n        close (self->fdo);\n", "    if (self->fdo >= 0)\n        close (self->fdo);\n    if (self->fdi != self->fdo && self->fdi >= 0)\n        close (self->fdi);\n")]),
    ("s-cio-pop", "same", [], [(CIO, "    HevTaskCIO *next = self->next;\n\n    self->next = NULL;\n    hev_object_unref (HEV_OBJECT (self));\n\n    return next;", "    HevObject *obj = &self->base;\n    HevTaskCIO *rest;\n\n    rest = self->next;\n    hev_task_cio_push (self, NULL);\n    hev_object_unref (obj);\n    return rest;")]),
    ("s-ref-obj", "same", [], [(OBJ, "    self->ref_count--;\n    if (self->ref_count)\n        return;\n\n    kptr->destruct (self);", "    if (--self->ref_count == 0)\n        kptr->destruct (self);")]),
    ("s-ref-fence", "same", [], [(OBA, "memory_order_acq_rel);\n    if (rc > 1)\n        return;\n", "memory_order_release);\n    if (rc > 1)\n        return;\n    atomic_thread_fence (memory_order_acquire);\n")]),
    ("s-ref-seq", "same", [], [(OBA, "    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);\n    if (rc > 1)\n        return;\n\n    kptr->destruct (base);", "    rc = atomic_fetch_sub (rcp, 1);\n    if (rc == 1)\n        kptr->destruct (base);")]),
    ("s-ref-alloc", "same", [], [("src/mem/base/hev-memory-allocator.c", "    self->ref_count--;\n    if (0 < self->ref_count)\n        return;\n\n    if (self->destroy)\n        self->destroy (self);\n    free (self);", "    if (--self->ref_count == 0) {\n        if (self->destroy)\n            self->destroy (self);\n        free (self);\n    }")]),
    ("cbuf-off", "bug", ["C23"], [(CIBU, "            memcpy (buf + res, iov[i].iov_base, count);", "            memcpy (buf, iov[i].iov_base, count);", "_hev_task_cio_buffer_read")]),
    ("cbuf-peekoff", "bug", ["C23"], [(CIBU, "            memcpy (buf + res, iov[i].iov_base, count);", "            memcpy (buf, iov[i].iov_base, count);")]),
    ("cbuf-peekfin", "bug", ["C23"], [(CIBU, "            break;\n        }\n    }\n\n    return res;\n}", "            break;\n        }\n    }\n    hev_circular_buffer_read_finish (self->rbuf, res);\n\n    return res;\n}")]),
    ("cbuf-nofin", "bug", ["C23"], [(CIBU, "    hev_circular_buffer_read_finish (self->rbuf, res);\n", "    if (iovcnt > 1)\n        hev_circular_buffer_read_finish (self->rbuf, res);\n")]),
    ("cbuf-count", "bug", ["C23"], [(CIBU, "            count -= iov[i].iov_len;\n            res += iov[i].iov_len;", "            res += iov[i].iov_len;", "_hev_task_cio_buffer_write")]),
    ("cbuf-le", "bug", ["C23"], [(CIBU, "        if (iov[i].iov_len < count) {", "        if (iov[i].iov_len < count || iovcnt == 1) {", "_hev_task_cio_buffer_read")]),
    ("cbuf-cap", "bug", ["C23"], [(CIBU, "    for (res = 0, i = 0; i < iovcnt; i++) {", "    for (res = 0, i = 0; i < 1; i++) {", "_hev_task_cio_buffer_read")]),
    ("cbuf-short", "bug", ["C23"], [(CIBU, "    for (res = 0, i = 0; i < iovcnt; i++) {", "    for (res = 0, i = 0; i < iovcnt && i < 1; i++) {", "_hev_task_cio_buffer_write")]),
    ("cbuf-res", "bug", ["C23"], [(CIBU, "    hev_circular_buffer_write_finish (self->wbuf, res);\n\n    return res;", "    hev_circular_buffer_write_finish (self->wbuf, res);\n\n    return res + count;")]),
    ("cbuf-fillall", "bug", ["C23"], [(CIBU, "        if (res <= 0)\n            return res;\n        hev_circular_buffer_write_finish (self->rbuf, res);", "        if (res <= 0)\n            return res;\n        hev_circular_buffer_write_finish (self->rbuf, iov[0].iov_len);")]),
    ("cbuf-dropfill", "bug", ["C23"], [(CIBU, "        if (res > 0)\n            hev_circular_buffer_write_finish (self->rbuf, res);", "        if (res > 1)\n            hev_circular_buffer_write_finish (self->rbuf, res);", "hev_task_cio_buffer_peekv")]),
    ("cbuf-eof", "bug", ["C23"], [(CIBU, "    res = hev_circular_buffer_get_use_size (self->rbuf);\n    if (res == 0) {", "    res = hev_circular_buffer_get_use_size (self->rbuf);\n    if (res < count) {", "_hev_task_cio_buffer_read")]),
    ("cbuf-stale", "bug", ["C23"], [(CIBU, "            return res;\n    }\n\n    iovcnt = hev_circular_buffer_writing (self->wbuf, iov);\n    for", "            return res;\n    }\n\n    for")]),
    ("cbuf-flushall", "bug", ["C23"], [(CIBU, "    hev_circular_buffer_read_finish (self->wbuf, res);\n\n    res = hev_circular_buffer_get_use_size (self->wbuf);", "    hev_circular_buffer_read_finish (self->wbuf, hev_circular_buffer_get_use_size (self->wbuf));\n\n    res = hev_circular_buffer_get_use_size (self->wbuf);")]),
    ("cbuf-flushneg", "bug", ["C23"], [(CIBU, "    if (res < 0)\n        return res;\n\n    hev_circular_buffer_read_finish (self->wbuf, res);", "    if (res < 0 && res != -1)\n        return res;\n\n    hev_circular_buffer_read_finish (self->wbuf, res);")]),
    ("cbuf-flushleft", "bug", ["C23"], [(CIBU, "    if (res) {\n        base->err = EAGAIN;\n        return -1;\n    }\n", "")]),
    ("cbuf-bypass", "bug", ["C23"], [(CIBU, "    if (!self->wbuf)\n        return hev_task_cio_next_write (base, buf, count);", "    if (!self->wbuf || count > hev_circular_buffer_get_max_size (self->wbuf))\n        return hev_task_cio_next_write (base, buf, count);")]),
    ("cbuf-rbypass", "bug", ["C23"], [(CIBU, "    if (!self->rbuf)\n        return hev_task_cio_next_readv (base, iov, iovcnt);", "    if (!self->rbuf || iovcnt > 1)\n        return hev_task_cio_next_readv (base, iov, iovcnt);")]),
    ("cbuf-vgap", "bug", ["C23"], [(CIBU, "        size += res;\n        if (res < v->iov_len)\n            break;\n", "        size += res;\n")]),
    ("cbuf-vlost", "bug", ["C23"], [(CIBU, "            if (size)\n                return size;\n            return res;", "            return res;")]),
    ("s-cbuf-vskip", "same", [], [(CIBU, "            if (size)\n                return size;\n            return res;", "            if (size)\n                return size;\n            if (res < 0)\n                return res;", "_hev_task_cio_buffer_writev")]),
    ("cbuf-dir", "bug", ["C23"], [(CIBU, "    iovcnt = hev_circular_buffer_writing (self->rbuf, iov);", "    iovcnt = hev_circular_buffer_reading (self->rbuf, iov);", "hev_task_cio_buffer_peekv")]),
    ("s-cbuf-min", "same", [], [(CIBU, """        if (iov[i].iov_len < count) {
            memcpy (buf + res, iov[i].iov_base, iov[i].iov_len);
            count -= iov[i].iov_len;
            res += iov[i].iov_len;
        } else {
            memcpy (buf + res, iov[i].iov_base, count);
            res += count;
            break;
        }
""", """        size_t n = iov[i].iov_len;
        if (n > count)
            n = count;
        memcpy (buf + res, iov[i].iov_base, n);
        res += n;
        count -= n;
        if (!count)
            break;
""", "_hev_task_cio_buffer_read")]),
    ("s-cbuf-helper", "same", [], [(CIBU, "static ssize_t\n_hev_task_cio_buffer_read ", """static size_t
copy_out (char *dst, size_t count, const struct iovec *iov, int iovcnt)
{
    size_t left = count;

    while (iovcnt-- > 0 && left) {
        size_t n = iov->iov_len < left ? iov->iov_len : left;

        memcpy (dst, iov->iov_base, n);
        dst += n;
        left -= n;
        iov++;
    }

    return count - left;
}

static ssize_t
_hev_task_cio_buffer_read """), (CIBU, """    for (res = 0, i = 0; i < iovcnt; i++) {
        if (iov[i].iov_len < count) {
            memcpy (buf + res, iov[i].iov_base, iov[i].iov_len);
            count -= iov[i].iov_len;
            res += iov[i].iov_len;
        } else {
            memcpy (buf + res, iov[i].iov_base, count);
            res += count;
            break;
        }
    }
""", "    (void)i;\n    res = copy_out (buf, count, iov, iovcnt);\n", "_hev_task_cio_buffer_read")]),
    ("s-cbuf-fill", "same", [], [(CIBU, "EXPORT_SYMBOL ssize_t\nhev_task_cio_buffer_peek ", """static ssize_t
fill (HevTaskCIOBuffer *self)
{
    struct iovec iov[2];
    ssize_t res;
    int n;

    n = hev_circular_buffer_writing (self->rbuf, iov);
    if (!n)
        return 0;
    res = hev_task_cio_next_readv (&self->base, iov, n);
    if (res > 0)
        hev_circular_buffer_write_finish (self->rbuf, res);
    return res;
}

EXPORT_SYMBOL ssize_t
hev_task_cio_buffer_peek """), (CIBU, """    iovcnt = hev_circular_buffer_writing (self->rbuf, iov);
    if (iovcnt) {
        HevTaskCIO *base = HEV_TASK_CIO (self);

        res = hev_task_cio_next_readv (base, iov, iovcnt);
        if (res > 0)
            hev_circular_buffer_write_finish (self->rbuf, res);
    }
""", "    fill (self);\n"), (CIBU, """        iovcnt = hev_circular_buffer_writing (self->rbuf, iov);
        res = hev_task_cio_next_readv (base, iov, iovcnt);
        if (res <= 0)
            return res;
        hev_circular_buffer_write_finish (self->rbuf, res);
""", "        res = fill (self);\n        if (res <= 0)\n            return res;\n", "_hev_task_cio_buffer_read")]),
    ("s-cbuf-vec", "same", [], [(CIBU, """    for (i = 0; i < iovcnt; i++) {
        const struct iovec *v = &iov[i];
        ssize_t res;

        if (!v->iov_len)
            continue;

        res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
        if (res <= 0) {
            if (size)
                return size;
            return res;
        }

        size += res;
        if (res < v->iov_len)
            break;
    }

    return size;""", """    for (i = 0; i < iovcnt; i++, iov++) {
        if (iov->iov_len) {
            ssize_t res = _hev_task_cio_buffer_write (base, iov->iov_base, iov->iov_len);
            if (res <= 0)
                return size ? size : res;
            size += res;
            if (res != iov->iov_len)
                return size;
        }
    }

    return size;""")]),
    ("s-cbuf-flush", "same", [], [(CIBU, "    res = hev_circular_buffer_get_use_size (self->wbuf);\n    if (res) {\n        base->err = EAGAIN;\n        return -1;\n    }\n\n    return 0;", "    if (!hev_circular_buffer_get_use_size (self->wbuf))\n        return 0;\n\n    base->err = EAGAIN;\n    return -1;")]),
    ("s-cbuf-unit", "same", [], [(CIBU, "static ssize_t\n_hev_task_cio_buffer_read (HevTaskCIO *base, void *buf, size_t count)\n{\n    HevTaskCIOBuffer *self = HEV_TASK_CIO_BUFFER (base);", "static ssize_t\nread_one (HevTaskCIOBuffer *self, void *buf, size_t count)\n{\n    HevTaskCIO *base = HEV_TASK_CIO (self);"), (CIBU, "    if (!self->rbuf)\n        return hev_task_cio_next_read (base, buf, count);\n\n", ""), (CIBU, "static int\n_hev_task_cio_buffer_flush ", "static ssize_t\n_hev_task_cio_buffer_read (HevTaskCIO *base, void *buf, size_t count)\n{\n    HevTaskCIOBuffer *self = HEV_TASK_CIO_BUFFER (base);\n\n    if (!self->rbuf)\n        return hev_task_cio_next_read (base, buf, count);\n    return read_one (self, buf, count);\n}\n\nstatic int\n_hev_task_cio_buffer_flush "), (CIBU, "res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);", "res = read_one (self, v->iov_base, v->iov_len);")]),
    # C18
    ("own-timerclose", "bug", ["C18"], [(TFC, "        close (self->fd);\n        hev_free (self);", "        hev_free (self);")]),
    ("own-timerchk", "bug", ["C18"], [(TFC, "    if (hev_task_io_reactor_setup (reactor, &event, 1) < 0) {\n        close (self->fd);\n        hev_free (self);\n        return NULL;\n    }\n", "    hev_task_io_reactor_setup (reactor, &event, 1);\n")]),
    ("own-timerfd0", "bug", ["C18"], [(TFC, "    if (self->fd < 0) {", "    if (self->fd < -1) {")]),
    ("own-reactfree", "bug", ["C18"], [(REA, "    if (fcntl (self->fd, F_SETFD, flags) < 0) {\n        close (self->fd);\n        hev_free (self);", "    if (fcntl (self->fd, F_SETFD, flags) < 0) {\n        close (self->fd);")]),
    ("own-reactuaf", "bug", ["C18"], [(REA, "    close (self->fd);\n    hev_free (self);\n}", "    hev_free (self);\n    close (self->fd);\n}")]),
    ("own-reactdes", "bug", ["C18"], [(REA, "    close (self->fd);\n    hev_free (self);\n}", "    hev_free (self);\n}")]),
    ("own-detsegv", "bug", ["C18"], [(DET, "    sigaction (SIGBUS, &self->bus_sa, NULL);\n    sigaction (SIGSEGV, &self->segv_sa, NULL);", "    sigaction (SIGBUS, &self->bus_sa, NULL);\n    sigaction (SIGBUS, &self->segv_sa, NULL);")]),
    ("own-detstack", "bug", ["C18"], [(DET, "        goto rest_stack;", "        goto free;"), (DET, "rest_stack:\n", "")]),
    ("own-detlibc", "bug", ["C18"], [(DET, "    setaltstack (&self->oss, NULL);\n    free (self);\n}", "    setaltstack (&self->oss, NULL);\n    hev_free (self);\n}"), (DET, "#include \"lib/misc/hev-compiler.h\"\n", "#include \"lib/misc/hev-compiler.h\"\n#include \"mem/api/hev-memory-allocator-api.h\"\n")]),
    ("own-detlate", "bug", ["C18"], [(DET, "    setaltstack (&self->oss, NULL);\n    free (self);\n}", "    free (self);\n    setaltstack (&self->oss, NULL);\n}")]),
    ("own-unmap", "bug", ["C18"], [(STM, "        munmap (self->stack, size);\n        hev_free (self);", "        hev_free (self);")]),
    ("own-unmapsz", "bug", ["C18"], [(STM, "        munmap (self->stack, size);\n", "        munmap (self->stack, page_size);\n")]),
    ("own-mapchk", "bug", ["C18"], [(STM, "if (self->stack == MAP_FAILED) {", "if (!self->stack) {")]),
    ("own-mprot", "bug", ["C18"], [(STM, "    if (mprotect (self->stack, page_size, PROT_NONE) < 0) {\n        munmap (self->stack, size);\n        hev_free (self);\n        return NULL;\n    }", "    mprotect (self->stack, page_size, PROT_NONE);")]),
    ("own-taskleak", "bug", ["C18"], [(TASK, "    if (!self->stack) {\n        hev_free (self);\n        return NULL;", "    if (!self->stack) {\n        return NULL;")]),
    ("own-tasklist", "bug", ["C18"], [(TASK, "    self->stack = hev_task_stack_new (stack_size);", "    hev_list_add_tail (&hev_task_system_get_context ()->all_tasks,\n                       &self->list_node);\n    self->stack = hev_task_stack_new (stack_size);"), (TASK, "    self->sched_entity.task = self;\n\n    hev_list_add_tail (&hev_task_system_get_context ()->all_tasks,\n                       &self->list_node);\n", "    self->sched_entity.task = self;\n")]),
    ("own-chan", "bug", ["C18"], [(CHC, "    if (!c2)\n        goto err1;", "    if (!c2)\n        goto err0;"), (CHC, "    hev_free (c2);\nerr1:\n    hev_free (c1);\n", "")]),
    ("own-proxy", "bug", ["C18"], [(DNP, "    res = hev_task_aide_add (&self->work);\n    if (0 > res)\n        goto close;", "    res = hev_task_aide_add (&self->work);\n    if (0 > res)\n        goto free;")]),
    ("own-proxytwice", "bug", ["C18"], [(DNP, "    close (fds[0]);\n    close (fds[1]);\nfree:", "    close (fds[0]);\n    close (fds[0]);\nfree:")]),
    ("own-proxydes", "bug", ["C18"], [(DNP, "    close (self->work.fd);\n    close (self->fd);", "    close (self->fd);")]),
    ("own-proxychk", "bug", ["C18"], [(DNP, "    res = hev_task_aide_add (&self->work);\n    if (0 > res)\n        goto close;", "    hev_task_aide_add (&self->work);")]),
    ("own-rbuf", "bug", ["C18"], [(CIBU, "            if (self->rbuf)\n                hev_circular_buffer_unref (self->rbuf);\n            return -1;", "            return -1;")]),
    ("own-bufnew", "bug", ["C18"], [(CIBU, "    if (res < 0) {\n        hev_free (self);\n        return NULL;", "    if (res < 0) {\n        return NULL;")]),
    ("own-bufdbl", "bug", ["C18"], [(CIBU, "    if (res < 0) {\n        hev_free (self);\n        return NULL;", "    if (res < 0) {\n        if (self->rbuf)\n            hev_circular_buffer_unref (self->rbuf);\n        hev_free (self);\n        return NULL;")]),
    ("own-splice", "bug", ["C18", "C19"], [(IOB, "    if (task_io_splicer_init (&splicer_b, buf_size) < 0)\n        goto exit;", "    if (task_io_splicer_init (&splicer_b, buf_size) < 0)\n        return;"), (IOB, "exit:\n    task_io_splicer_fini (&splicer_f);", "    task_io_splicer_fini (&splicer_f);")]),
    ("own-splicepipe", "bug", ["C18", "C19"], [(IOB, "exit_close:\n    close (self->fd[0]);\n", "exit_close:\n")]),
    ("own-splicefini", "bug", ["C18", "C19"], [(IOB, "    close (self->fd[0]);\n    close (self->fd[1]);\n}", "    close (self->fd[0]);\n    close (self->fd[0]);\n}")]),
    ("own-ciosplice", "bug", ["C18", "C19"], [(CIO, "    if (!buf_b)\n        goto exit;", "    if (!buf_b)\n        return;"), (CIO, "exit:\n    hev_circular_buffer_unref (buf_f);", "    hev_circular_buffer_unref (buf_f);")]),
    ("own-call", "bug", ["C18"], [(CAL, "    self = hev_malloc (base_size + stack_size);\n    if (self) {", "    self = hev_malloc (base_size + stack_size);\n    {")]),
    ("s-own-goto", "same", [], [(TFC, """    if (self->fd < 0) {
        hev_free (self);
        return NULL;
    }
""", """    if (self->fd < 0)
        goto err;
"""), (TFC, """        close (self->fd);
        hev_free (self);
        return NULL;
    }

    return &self->base;
""", """        close (self->fd);
        goto err;
    }

    return &self->base;

err:
    hev_free (self);
    return NULL;
""")]),
    ("s-own-local", "same", [], [(REA, "    self->fd = hev_task_io_reactor_open ();\n    if (self->fd < 0) {\n        hev_free (self);\n        return NULL;\n    }\n\n    flags = fcntl (self->fd, F_GETFD);\n    if (flags < 0) {\n        close (self->fd);\n        hev_free (self);\n        return NULL;\n    }\n\n    flags |= FD_CLOEXEC;\n    if (fcntl (self->fd, F_SETFD, flags) < 0) {\n        close (self->fd);\n        hev_free (self);\n        return NULL;\n    }\n\n    return self;", "    int fd = hev_task_io_reactor_open ();\n    if (fd >= 0) {\n        flags = fcntl (fd, F_GETFD);\n        if (flags >= 0 && fcntl (fd, F_SETFD, flags | FD_CLOEXEC) >= 0) {\n            self->fd = fd;\n            return self;\n        }\n        close (fd);\n    }\n\n    hev_free (self);\n    return NULL;")]),
    ("s-own-order", "same", [], [(DET, "    sigaction (SIGBUS, &self->bus_sa, NULL);\n    sigaction (SIGSEGV, &self->segv_sa, NULL);\n    setaltstack (&self->oss, NULL);", "    setaltstack (&self->oss, NULL);\n    sigaction (SIGSEGV, &self->segv_sa, NULL);\n    sigaction (SIGBUS, &self->bus_sa, NULL);")]),
    ("s-own-helper", "same", [], [(DNP, "HevTaskDNSProxy *\nhev_task_dns_proxy_new (void)\n", "static void\nclose_both (int *fds)\n{\n    int i;\n\n    for (i = 0; i < 2; i++)\n        close (fds[i]);\n}\n\nHevTaskDNSProxy *\nhev_task_dns_proxy_new (void)\n"), (DNP, "    close (fds[0]);\n    close (fds[1]);\nfree:", "    close_both (fds);\nfree:")]),
    ("s-own-helper2", "same", [], [(DNP, "HevTaskDNSProxy *\nhev_task_dns_proxy_new (void)\n", "static void\nproxy_release (HevTaskDNSProxy *self)\n{\n    close (self->work.fd);\n    close (self->fd);\n    hev_free (self);\n}\n\nHevTaskDNSProxy *\nhev_task_dns_proxy_new (void)\n"), (DNP, "    hev_task_aide_del (&self->work);\n    close (self->work.fd);\n    close (self->fd);\n    hev_free (self);", "    hev_task_aide_del (&self->work);\n    proxy_release (self);")]),
    ("s-own-chan", "same", [], [(CHC, "    c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);\n    if (!c1)\n        goto err0;\n\n    c2 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);\n    if (!c2)\n        goto err1;\n", "    c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);\n    c2 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);\n    if (!c1 || !c2) {\n        hev_free (c1);\n        hev_free (c2);\n        return -1;\n    }\n"), (CHC, "    hev_free (c2);\nerr1:\n    hev_free (c1);\nerr0:", "err0:")]),
    # C32
    ("sys-order", "bug", ["C32"], [(SYS, "    hev_free (context);\n    hev_task_system_set_context (NULL);\n\n    allocator = hev_memory_allocator_set_default (NULL);\n", "    hev_task_system_set_context (NULL);\n\n    allocator = hev_memory_allocator_set_default (NULL);\n    hev_free (context);\n")]),
    ("sys-late", "bug", ["C32"], [(SYS, "    hev_free (context);\n    hev_task_system_set_context (NULL);\n\n    allocator = hev_memory_allocator_set_default (NULL);\n    if (allocator)\n        hev_memory_allocator_unref (allocator);\n", "    hev_task_system_set_context (NULL);\n\n    allocator = hev_memory_allocator_default ();\n    hev_memory_allocator_unref (allocator);\n    hev_free (context);\n    hev_memory_allocator_set_default (NULL);\n")]),
    ("sys-keep", "bug", ["C32"], [(SYS, "    hev_free (context);\n    hev_task_system_set_context (NULL);\n", "    hev_free (context);\n")]),
    ("sys-proxy", "bug", ["C32"], [(SYS, "    if (context->dns_proxy)\n        hev_task_dns_proxy_destroy (context->dns_proxy);\n", "")]),
    ("sys-proxynull", "bug", ["C32"], [(SYS, "    if (context->dns_proxy)\n        hev_task_dns", "    hev_task_dns")]),
    ("sys-timerfirst", "bug", ["C32"], [(SYS, "    context->reactor = hev_task_io_reactor_new ();\n    if (!context->reactor)\n        goto rest_context;\n\n    context->timer = hev_task_timer_new ();\n    if (!context->timer)\n        goto free_reactor;\n", "    context->timer = hev_task_timer_new ();\n    if (!context->timer)\n        goto rest_context;\n\n    context->reactor = hev_task_io_reactor_new ();\n    if (!context->reactor)\n        goto free_reactor;\n"), (SYS, "free_timer:\n    hev_task_timer_destroy (context->timer);\nfree_reactor:\n    hev_task_io_reactor_destroy (context->reactor);\n", "free_timer:\n    hev_task_io_reactor_destroy (context->reactor);\nfree_reactor:\n    hev_task_timer_destroy (context->timer);\n")]),
    ("sys-restctx", "bug", ["C32"], [(SYS, "        goto rest_context;", "        goto free_context;"), (SYS, "rest_context:\n    hev_task_system_set_context (NULL);\n", "")]),
    ("sys-allocleak", "bug", ["C32"], [(SYS, "    allocator = hev_memory_allocator_set_default (old_allocator);\n    if (allocator)\n        hev_memory_allocator_unref (allocator);\nexit:", "    hev_memory_allocator_set_default (old_allocator);\nexit:")]),
    ("sys-oldleak", "bug", ["C32"], [(SYS, "    if (old_allocator)\n        hev_memory_allocator_unref (old_allocator);\n\n    return 0;", "    return 0;")]),
    ("sys-oldearly", "bug", ["C32"], [(SYS, "    context = hev_malloc0 (sizeof (HevTaskSystemContext));", "    if (old_allocator)\n        hev_memory_allocator_unref (old_allocator);\n\n    context = hev_malloc0 (sizeof (HevTaskSystemContext));"), (SYS, "    if (old_allocator)\n        hev_memory_allocator_unref (old_allocator);\n\n    return 0;", "    return 0;")]),
    ("sys-timerleak", "bug", ["C32"], [(SYS, "    if (!context->stack_detector)\n        goto free_timer;", "    if (!context->stack_detector)\n        goto free_reactor;"), (SYS, "free_timer:\n    hev_task_timer_destroy (context->timer);\n", "")]),
    ("sys-nodet", "bug", ["C32"], [(SYS, "    if (!context->stack_detector)\n        goto free_timer;\n", ""), (SYS, "free_timer:\n    hev_task_timer_destroy (context->timer);\n", "")]),
    ("sys-again", "bug", ["C32"], [(SYS, "    if (hev_task_system_get_context ())\n        goto exit;\n\n#ifdef", "#ifdef"), (SYS, "    context = hev_malloc0 (sizeof (HevTaskSystemContext));", "    if (hev_task_system_get_context ())\n        goto exit;\n\n    context = hev_malloc0 (sizeof (HevTaskSystemContext));")]),
    ("sys-plain", "bug", ["C32"], [(SYS, "    old_allocator = hev_memory_allocator_set_default (allocator);\n", "    old_allocator = hev_memory_allocator_set_default (NULL);\n")]),
    ("sys-nofini", "bug", ["C32"], [(SYS, "    hev_task_timer_destroy (context->timer);\n    hev_task_io_reactor_destroy (context->reactor);\n    hev_free", "    hev_task_timer_destroy (context->timer);\n    hev_free")]),
    ("sys-once", "bug", ["C32"], [(SYS, "    pthread_once (&key_once, pthread_key_creator);\n\n    if (hev_task_system_get_context ())\n        goto exit;\n", "    if (hev_task_system_get_context ())\n        goto exit;\n\n    pthread_once (&key_once, pthread_key_creator);\n")]),
    ("s-sys-order", "same", [], [(SYS, "    hev_task_timer_destroy (context->timer);\n    hev_task_io_reactor_destroy (context->reactor);\n    hev_free (context);\n    hev_task_system_set_context (NULL);", "    hev_task_io_reactor_destroy (context->reactor);\n    hev_task_timer_destroy (context->timer);\n    hev_task_system_set_context (NULL);\n    hev_free (context);")]),
    ("s-sys-helper", "same", [], [(SYS, "EXPORT_SYMBOL int\nhev_task_system_init (void)", "static void\nswap_allocator (HevMemoryAllocator *to)\n{\n    HevMemoryAllocator *from = hev_memory_allocator_set_default (to);\n\n    if (from)\n        hev_memory_allocator_unref (from);\n}\n\nEXPORT_SYMBOL int\nhev_task_system_init (void)"), (SYS, "    allocator = hev_memory_allocator_set_default (old_allocator);\n    if (allocator)\n        hev_memory_allocator_unref (allocator);\nexit:", "    swap_allocator (old_allocator);\nexit:"), (SYS, "    HevMemoryAllocator *allocator;\n    HevTaskSystemContext *context = hev", "    HevTaskSystemContext *context = hev"), (SYS, "    allocator = hev_memory_allocator_set_default (NULL);\n    if (allocator)\n        hev_memory_allocator_unref (allocator);\n", "    swap_allocator (NULL);\n")]),
    ("s-sys-local", "same", [], [(SYS, "    context->reactor = hev_task_io_reactor_new ();\n    if (!context->reactor)\n        goto rest_context;\n", "    HevTaskIOReactor *r = hev_task_io_reactor_new ();\n    if (!r)\n        goto rest_context;\n    context->reactor = r;\n")]),
    ("s-sys-det", "same", [], [(SYS, "    hev_task_stack_detector_destroy (context->stack_detector);\n    hev_task_timer_destroy (context->timer);\n    hev_task_io_reactor_destroy (context->reactor);\n    hev_free (context);\n    hev_task_system_set_context (NULL);\n", "    hev_task_timer_destroy (context->timer);\n    hev_task_io_reactor_destroy (context->reactor);\n    hev_task_stack_detector_destroy (context->stack_detector);\n    hev_task_system_set_context (NULL);\n    hev_free (context);\n")]),
    # C29
    ("stk-round", "bug", ["C29"], [(STM, "    size = ALIGN_UP (size, page_size);\n", "    size = ALIGN_DOWN (size, page_size);\n")]),
    ("stk-guardsize", "bug", ["C29"], [(STM, "    size += page_size;\n", "")]),
    ("stk-noguard", "bug", ["C29"], [(STM, "mprotect (self->stack, page_size, PROT_NONE)", "mprotect (self->stack, page_size, PROT_READ)")]),
    ("stk-guardtop", "bug", ["C29"], [(STM, "mprotect (self->stack, page_size, PROT_NONE)", "mprotect (self->stack + size - page_size, page_size, PROT_NONE)")]),
    ("stk-page", "bug", ["C29"], [(STM, "    size = ALIGN_UP (size, page_size);\n", "    size = ALIGN_UP (size, 4096);\n"), (STM, "    size += page_size;\n", "    size += 4096;\n")]),
    ("stk-shared", "bug", ["C29"], [(STM, "MAP_PRIVATE | MAP_ANON", "MAP_SHARED | MAP_ANON")]),
    ("stk-unmap", "bug", ["C29"], [(STM, "    self->size = size;\n\n    return self;", "#ifdef ENABLE_STACK_OVERFLOW_DETECTION\n    size -= page_size;\n    self->stack += page_size;\n#endif\n    self->size = size;\n\n    return self;")]),
    ("stk-heapalign", "bug", ["C29"], [(STH, "    return (void *)ALIGN_DOWN ((intptr_t)(self + 1) + self->size, STACK_ALIGN);", "    return (void *)(self + 1) + self->size;")]),
    ("stk-heapup", "bug", ["C29"], [(STH, "ALIGN_DOWN ((", "ALIGN_UP ((")]),
    ("stk-heapslack", "bug", ["C29"], [(STH, "SIZE + STACK_ALIGN;", "SIZE;")]),
    ("stk-heaphdr", "bug", ["C29"], [(STH, "hev_malloc (sizeof (HevTaskStack) + size)", "hev_malloc (size)")]),
    ("stk-heaptag", "bug", ["C29"], [(STH, "    int i;\n\n    for (i = 0; i < tags; i++)\n        assert", "    int i;\n\n    for (i = 1; i < tags; i++)\n        assert")]),
    ("stk-heapmark", "bug", ["C29"], [(STH, "    unsigned int *tagp = (unsigned int *)(self + 1);\n    int i;\n\n    for (i = 0; i < tags; i++)\n        tagp[i] = tag;", "    unsigned int *tagp = (unsigned int *)(self + 1);\n    int i;\n\n    for (i = 0; i < 1; i++)\n        tagp[i] = tag;")]),
    ("stk-heapnocheck", "bug", ["C29"], [(STH, "    hev_task_stack_detection_check (self);\n    hev_free", "    hev_free")]),
    ("stk-bottom", "bug", ["C29"], [(TASK, "hev_task_stack_get_bottom (self->stack)", "hev_task_stack_get_bottom (self->stack) - 8")]),
    ("stk-size", "bug", ["C29"], [(TASK, "    self->stack = hev_task_stack_new (stack_size);", "    self->stack = hev_task_stack_new (stack_size / 2);")]),
    ("stk-dflt", "bug", ["C29"], [(TASK, "    if (stack_size < 0)", "    if (stack_size < -1)")]),
    ("stk-callbase", "bug", ["C29"], [(CAL, "hev_malloc (base_size + stack_size)", "hev_malloc (stack_size)")]),
    ("stk-callalign", "bug", ["C29"], [(CAL, "ALIGN_DOWN (stack_addr, 16)", "ALIGN_DOWN (stack_addr, 8)")]),
    ("stk-callup", "bug", ["C29"], [(CAL, "ALIGN_DOWN (stack_addr, 16)", "ALIGN_UP (stack_addr, 16)")]),
    ("stk-asmalign", "bug", ["C29"], [(ASM, "    subq  $0x8, %rsp\n", "")]),
    ("stk-asmrbx", "bug", ["C29"], [(ASM, "    movq  %rsp, %rax\n    movq  (%rdi), %rsp\n    subq  $0x8, %rsp\n    pushq %rax\n\n    callq  *%rsi\n\n    popq  %rsp", "    movq  %rsp, %rbx\n    movq  (%rdi), %rsp\n\n    callq  *%rsi\n\n    movq  %rbx, %rsp")]),
    ("stk-asmup", "bug", ["C29"], [(ASM, "    subq  $0x8, %rsp\n    pushq %rax\n\n    callq  *%rsi\n\n    popq  %rsp", "    movq  %rax, (%rsp)\n\n    callq  *%rsi\n\n    popq  %rsp")]),
    ("s-stk-asm", "same", [], [(ASM, "    movq  %rsp, %rax\n    movq  (%rdi), %rsp\n    subq  $0x8, %rsp\n    pushq %rax\n\n    callq  *%rsi\n\n    popq  %rsp", "    pushq %rbx\n    movq  %rsp, %rbx\n    movq  (%rdi), %rsp\n    callq  *%rsi\n    movq  %rbx, %rsp\n    popq  %rbx")]),
    ("s-stk-asm2", "same", [], [(ASM, "    subq  $0x8, %rsp\n    pushq %rax\n\n    callq  *%rsi\n\n    popq  %rsp", "    leaq  -16(%rsp), %rsp\n    movq  %rax, 8(%rsp)\n\n    callq  *%rsi\n\n    movq  8(%rsp), %rsp")]),
    ("s-stk-static", "same", [], [(STM, "    static int page_size;\n\n    if (!page_size)\n        page_size = getpagesize ();\n", "    int page_size = getpagesize ();\n")]),
    ("s-stk-big", "same", [], [(STM, "    size += page_size;\n", "    size += 2 * page_size;\n")]),
    ("s-stk-helper", "same", [], [(STM, "HevTaskStack *\nhev_task_stack_new (int size)\n{", "static int\nround_pages (int size, int page)\n{\n    return (size + page - 1) & ~(page - 1);\n}\n\nHevTaskStack *\nhev_task_stack_new (int size)\n{"), (STM, "ALIGN_UP (size, page_size)", "round_pages (size, page_size)")]),
    ("s-stk-div", "same", [], [(STM, "    size = ALIGN_UP (size, page_size);\n", "    size = (size + page_size - 1) / page_size * page_size;\n")]),
    ("s-stk-order", "same", [], [(STM, "    self->size = size;\n\n    return self;", "    return self;"), (STM, "    self->stack = mmap", "    self->size = size;\n    self->stack = mmap")]),
    ("s-stk-heapwhile", "same", [], [(STH, "    int i;\n\n    for (i = 0; i < tags; i++)\n        tagp[i] = tag;", "    unsigned int i = tags;\n\n    while (i) {\n        i--;\n        tagp[i] = tag;\n    }")]),
    ("s-stk-heapptr", "same", [], [(STH, "    int i;\n\n    for (i = 0; i < tags; i++)\n        tagp[i] = tag;", "    unsigned int *end = tagp + tags;\n\n    for (; tagp < end; tagp++)\n        *tagp = tag;")]),
    # C24
    ("sli-small", "bug", ["C24"], [(SLI, "    size = ALIGN_UP (size, CACHED_SLICE_ALIGN);\n    index = size / CACHED_SLICE_ALIGN;\n\n    switch", "    index = size / CACHED_SLICE_ALIGN;\n    size = ALIGN_UP (size, CACHED_SLICE_ALIGN);\n\n    switch")]),
    ("sli-hdr", "bug", ["C24"], [(SLI, "        slice = malloc (sizeof (HevMemorySlice) + size);\n        if (!slice)\n            return NULL;\n\n        slice->index = index - 1;", "        slice = malloc (size);\n        if (!slice)\n            return NULL;\n\n        slice->index = index - 1;")]),
    ("sli-index", "bug", ["C24"], [(SLI, "            return NULL;\n\n        slice->index = index - 1;", "            return NULL;\n\n        slice->index = index;")]),
    ("sli-edge", "bug", ["C24"], [(SLI, "    case 1 ... MAX_CACHED_SLICE_INDEX:\n        owner", "    case 1 ... MAX_CACHED_SLICE_INDEX + 1:\n        owner")]),
    ("sli-redge", "bug", ["C24"], [(SLI, "    case 1 ... MAX_CACHED_SLICE_INDEX:\n        slice->index", "    case 1 ... MAX_CACHED_SLICE_INDEX + 1:\n        slice->index")]),
    ("sli-rkeep", "bug", ["C24"], [(SLI, "        slice->index = index - 1;\n#ifdef _DEBUG\n        printf (\"[%p] realloc size", "#ifdef _DEBUG\n        printf (\"[%p] realloc size")]),
    ("sli-rdef", "bug", ["C24"], [(SLI, "        slice->index = -1;\n#ifdef _DEBUG\n        printf (\"[%p] default realloc", "#ifdef _DEBUG\n        printf (\"[%p] default realloc")]),
    ("sli-rskip", "bug", ["C24"], [(SLI, "    slice = realloc (slice,", "    if (slice->index >= 0 && slice->index + 1 >= (int)index - 1)\n        return ptr;\n\n    slice = realloc (slice,")]),
    ("sli-limit", "bug", ["C24"], [(SLI, "self->cached_count >= MAX", "self->cached_count > MAX")]),
    ("sli-count", "bug", ["C24"], [(SLI, "        *owner = free_slice->next;\n        self->cached_count--;", "        *owner = free_slice->next;")]),
    ("sli-count2", "bug", ["C24"], [(SLI, "        *owner = slice->next;\n        self->cached_count--;", "        *owner = slice->next;")]),
    ("sli-lru", "bug", ["C24"], [(SLI, "        _hev_memory_allocator_lru_remove (self, node);\n        if (*owner)\n            _hev_memory_allocator_lru_insert", "        if (*owner)\n            _hev_memory_allocator_lru_insert")]),
    ("sli-lruempty", "bug", ["C24"], [(SLI, "        if (*owner)\n            _hev_memory_allocator_lru_insert (self, node);", "        _hev_memory_allocator_lru_insert (self, node);")]),
    ("sli-lrugone", "bug", ["C24"], [(SLI, "        if (*owner)\n            _hev_memory_allocator_lru_insert (self, node);\n", "")]),
    ("sli-evict", "bug", ["C24"], [(SLI, "        if (!*owner)\n            _hev_memory_allocator_lru_remove (self, node);\n", "")]),
    ("sli-evict2", "bug", ["C24"], [(SLI, "        if (!*owner)\n            _hev_memory_allocator_lru_remove", "        if (*owner)\n            _hev_memory_allocator_lru_remove")]),
    ("sli-evictleak", "bug", ["C24"], [(SLI, "        free (free_slice);\n", "")]),
    ("sli-evictearly", "bug", ["C24"], [(SLI, "        HevMemorySlice *free_slice = *owner;\n\n        *owner = free_slice->next;", "        HevMemorySlice *free_slice = *owner;\n\n        free (free_slice);\n        *owner = free_slice->next;"), (SLI, "            _hev_memory_allocator_lru_remove (self, node);\n\n        free (free_slice);", "            _hev_memory_allocator_lru_remove (self, node);")]),
    ("sli-stale", "bug", ["C24"], [(SLI, "    if (self->cached_count >= MAX", "    slice->next = self->cached_mslices[slice->index];\n    if (self->cached_count >= MAX"), (SLI, "    slice->next = self->cached_mslices[slice->index];\n    self->cached_mslices[slice->index] = slice;", "    self->cached_mslices[slice->index] = slice;")]),
    ("sli-insalways", "bug", ["C24"], [(SLI, "    if (!slice->next) {\n        HevMemoryLRUNode *node;\n", "    {\n        HevMemoryLRUNode *node;\n")]),
    ("sli-insnone", "bug", ["C24"], [(SLI, "    if (!slice->next) {\n        HevMemoryLRUNode *node;\n", "    if (slice->next) {\n        HevMemoryLRUNode *node;\n")]),
    ("sli-instail", "bug", ["C24"], [(SLI, "    self->lru_head = node;\n    if (!self->lru_tail)\n        self->lru_tail = node;", "    self->lru_head = node;\n    self->lru_tail = node;")]),
    ("sli-insprev", "bug", ["C24"], [(SLI, "        self->lru_head->prev = node;\n", "")]),
    ("sli-insprev2", "bug", ["C24"], [(SLI, "    node->prev = NULL;\n    if (self->lru_head)", "    if (self->lru_head)")]),
    ("sli-insnext", "bug", ["C24"], [(SLI, "    } else {\n        node->next = NULL;\n    }\n    self->lru_head = node;", "    }\n    self->lru_head = node;")]),
    ("sli-remtail", "bug", ["C24"], [(SLI, "        self->lru_tail = node->prev;", "        self->lru_tail = node->next;")]),
    ("sli-remmid", "bug", ["C24"], [(SLI, "    if (node->next)\n        node->next->prev = node->prev;\n", "")]),
    ("sli-destroy", "bug", ["C24"], [(SLI, "        while (iter) {\n            HevMemorySlice *next = iter->next;\n            free (iter);\n            iter = next;\n        }", "        if (iter) {\n            HevMemorySlice *next = iter->next;\n            free (iter);\n            iter = next;\n        }")]),
    ("sli-destroyuaf", "bug", ["C24"], [(SLI, "            HevMemorySlice *next = iter->next;\n            free (iter);\n            iter = next;", "            HevMemorySlice *cur = iter;\n            free (cur);\n            iter = cur->next;")]),
    ("sli-destroyone", "bug", ["C24"], [(SLI, "    for (node = self->lru_head; node; node = node->next) {", "    for (node = self->lru_head; node && node->next; node = node->next) {")]),
    ("sli-wrap", "bug", ["C24"], [(SLI, "    case 0:\n        return NULL;\n    case 1", "    case 0:\n        slice = malloc (sizeof (HevMemorySlice) + size);\n        if (!slice)\n            return NULL;\n        slice->index = -1;\n        return slice + 1;\n    case 1")]),
    ("sli-init", "bug", ["C24"], [(SLI, "memset (self->cached_mslices, 0, sizeof (self->cached_mslices));", "memset (self->cached_mslices, 0, MAX_CACHED_SLICE_INDEX);")]),
    ("sli-inittail", "bug", ["C24"], [(SLI, "    self->lru_tail = NULL;\n    self->cached_count", "    self->cached_count")]),
    ("sli-dbl", "bug", ["C24"], [(SLI, "    if (slice->index < 0) {\n        free (slice);\n        return;\n    }", "    if (slice->index < 0) {\n        free (slice);\n    }")]),
    ("s-sli-if", "same", [], [(SLI, "    switch (index) {\n    case 0:\n        return NULL;\n    case 1 ... MAX_CACHED_SLICE_INDEX:\n        owner = &self->cached_mslices[index - 1];\n        break;\n    default:", "    if (index == 0)\n        return NULL;\n\n    if (index <= MAX_CACHED_SLICE_INDEX) {\n        owner = &self->cached_mslices[index - 1];\n    } else {")]),
    ("s-sli-pop", "same", [], [(SLI, "static void *\n_hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)\n{", "static HevMemorySlice *\npop_slice (HevMemoryAllocatorSlice *self, HevMemorySlice **owner)\n{\n    HevMemorySlice *slice = *owner;\n\n    *owner = slice->next;\n    self->cached_count--;\n\n    return slice;\n}\n\nstatic void *\n_hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)\n{"), (SLI, "        slice = *owner;\n        *owner = slice->next;\n        self->cached_count--;\n", "        slice = pop_slice (self, owner);\n"), (SLI, "        HevMemorySlice *free_slice = *owner;\n\n        *owner = free_slice->next;\n        self->cached_count--;\n", "        HevMemorySlice *free_slice = pop_slice (self, owner);\n")]),
    ("s-sli-idx", "same", [], [(SLI, "    size_t index;\n\n    size = ALIGN_UP (size, CACHED_SLICE_ALIGN);\n    index = size / CACHED_SLICE_ALIGN;\n\n    switch (index) {\n    case 0:\n        return NULL;\n    case 1 ... MAX_CACHED_SLICE_INDEX:\n        owner = &self->cached_mslices[index - 1];", "    size_t index;\n\n    size = (size + CACHED_SLICE_ALIGN - 1) / CACHED_SLICE_ALIGN * CACHED_SLICE_ALIGN;\n    index = size / CACHED_SLICE_ALIGN;\n\n    switch (index) {\n    case 0:\n        return NULL;\n    case 1 ... MAX_CACHED_SLICE_INDEX:\n        owner = self->cached_mslices + index - 1;")]),
    ("s-sli-order", "same", [], [(SLI, "    slice->next = self->cached_mslices[slice->index];\n    self->cached_mslices[slice->index] = slice;\n    self->cached_count++;\n\n    if (!slice->next) {\n        HevMemoryLRUNode *node;\n\n        node = &self->lru_nodes[slice->index];\n        _hev_memory_allocator_lru_insert (self, node);\n    }", "    self->cached_count++;\n    slice->next = self->cached_mslices[slice->index];\n    if (!slice->next)\n        _hev_memory_allocator_lru_insert (self, &self->lru_nodes[slice->index]);\n    self->cached_mslices[slice->index] = slice;")]),
    ("s-sli-destroy", "same", [], [(SLI, "    HevMemoryLRUNode *node;\n\n    for (node = self->lru_head; node; node = node->next) {\n        HevMemorySlice *iter = self->cached_mslices[node - self->lru_nodes];\n", "    int i;\n\n    for (i = 0; i < MAX_CACHED_SLICE_INDEX; i++) {\n        HevMemorySlice *iter = self->cached_mslices[i];\n")]),
    ("s-sli-destroy2", "same", [], [(SLI, "    for (node = self->lru_head; node; node = node->next) {", "    node = self->lru_head;\n    while (node) {"), (SLI, "            iter = next;\n        }\n    }", "            iter = next;\n        }\n        node = node->next;\n    }")]),
    ("s-sli-keep", "same", [], [(SLI, "        _hev_memory_allocator_lru_remove (self, node);\n        if (*owner)\n            _hev_memory_allocator_lru_insert (self, node);", "        if (!*owner)\n            _hev_memory_allocator_lru_remove (self, node);")]),
    ("s-sli-inline", "same", [], [(SLI, "        if (!*owner)\n            _hev_memory_allocator_lru_remove (self, node);\n\n        free", "        if (!*owner) {\n            self->lru_tail = node->prev;\n            if (node->prev)\n                node->prev->next = NULL;\n            else\n                self->lru_head = NULL;\n        }\n\n        free")]),
    ("s-sli-rem", "same", [], [(SLI, "    if (node->prev)\n        node->prev->next = node->next;\n    if (node->next)\n        node->next->prev = node->prev;\n    if (self->lru_head == node)\n        self->lru_head = node->next;\n    if (self->lru_tail == node)\n        self->lru_tail = node->prev;", "    if (node->prev)\n        node->prev->next = node->next;\n    else\n        self->lru_head = node->next;\n    if (node->next)\n        node->next->prev = node->prev;\n    else\n        self->lru_tail = node->prev;")]),
    ("s-sli-full", "same", [], [(SLI, "    if (self->cached_count >= MAX_CACHED_SLICE_COUNT) {", "    while (0) {"), (SLI, "    if (slice->index < 0) {", "    if (slice->index < 0 || self->cached_count >= MAX_CACHED_SLICE_COUNT) {")]),
    ("s-sli-rsame", "same", [], [(SLI, "    slice = realloc (slice,", "    if (slice->index >= 0 && slice->index == (int)index - 1)\n        return ptr;\n\n    slice = realloc (slice,")]),
    # C25
    ("mem-zero", "bug", ["C25"], [(MAP, "    data = hev_memory_allocator_alloc (allocator, size);\n    if (data)\n        memset (data, 0, size);\n    return data;\n}\n\nEXPORT_SYMBOL void *\nhev_calloc", "    data = hev_memory_allocator_alloc (allocator, size);\n    if (data)\n        memset (data, 0, sizeof (size));\n    return data;\n}\n\nEXPORT_SYMBOL void *\nhev_calloc")]),
    ("mem-zeroc", "bug", ["C25"], [(MAP, "    size *= nmemb;\n    allocator = hev_memory_allocator_default ();\n    data = hev_memory_allocator_alloc (allocator, size);", "    allocator = hev_memory_allocator_default ();\n    data = hev_memory_allocator_alloc (allocator, size * nmemb);")]),
    ("mem-ovf", "bug", ["C25"], [(MAP, "    if (size > SIZE_MAX / nmemb)\n        return NULL;\n", "")]),
    ("mem-ovf32", "bug", ["C25"], [(MAP, "    if (size > SIZE_MAX / nmemb)", "    if (size > SIZE_MAX / size)")]),
    ("mem-zerosize", "bug", ["C25"], [(MAP, "    if (!nmemb || !size)\n        return NULL;\n\n    if (size > SIZE_MAX / nmemb)", "    if (nmemb && size > SIZE_MAX)")]),
    ("mem-dflt", "bug", ["C25"], [(MAB, "    if (!allocator) {\n        allocator = hev_memory_allocator_simple_new ();\n        pthread_setspecific (key, allocator);", "    if (!allocator) {\n        allocator = hev_memory_allocator_simple_new ();")]),
    ("mem-set", "bug", ["C25"], [(MAB, "    old_allocator = pthread_getspecific (key);\n    pthread_setspecific (key, allocator);", "    pthread_setspecific (key, allocator);\n    old_allocator = pthread_getspecific (key);")]),
    ("mem-setunref", "bug", ["C25"], [(MAB, "    pthread_setspecific (key, allocator);\n\n    return old_allocator;", "    pthread_setspecific (key, allocator);\n    if (old_allocator && old_allocator == allocator)\n        old_allocator->ref_count--;\n\n    return old_allocator;")]),
    ("mem-global", "bug", ["C25"], [(MAB, "    allocator = pthread_getspecific (key);\n    if (!allocator) {\n        allocator = hev_memory_allocator_simple_new ();", "    static HevMemoryAllocator *plain;\n    allocator = pthread_getspecific (key);\n    if (!allocator) {\n        if (!plain)\n            plain = hev_memory_allocator_simple_new ();\n        allocator = plain;")]),
    ("mem-realloc", "bug", ["C25"], [(MAB, "    return self->realloc (self, ptr, size);", "    if (!ptr)\n        return self->alloc (self, 0);\n    return self->realloc (self, ptr, size);")]),
    ("mem-simple", "bug", ["C25"], [(MAS, "    return realloc (ptr, size);", "    return size ? realloc (ptr, size) : ptr;")]),
    ("mem-unref", "bug", ["C25", "C26"], [(MAB, "    if (self->destroy)\n        self->destroy (self);\n    free (self);", "    free (self);")]),
    ("s-mem-bmo", "same", [], [(MAP, "    if (size > SIZE_MAX / nmemb)\n        return NULL;\n\n    size *= nmemb;", "    if (__builtin_mul_overflow (size, nmemb, &size))\n        return NULL;\n")]),
    ("s-mem-swap", "same", [], [(MAP, "    if (size > SIZE_MAX / nmemb)", "    if (nmemb > SIZE_MAX / size)")]),
    ("s-mem-div", "same", [], [(MAP, "    if (size > SIZE_MAX / nmemb)\n        return NULL;\n\n    size *= nmemb;", "    size_t total = nmemb * size;\n    if (total / nmemb != size)\n        return NULL;\n\n    size = total;")]),
    ("s-mem-call", "same", [], [(MAP, "    HevMemoryAllocator *allocator;\n    void *data;\n\n    allocator = hev_memory_allocator_default ();\n    data = hev_memory_allocator_alloc (allocator, size);\n    if (data)\n        memset (data, 0, size);\n    return data;\n}\n\nEXPORT_SYMBOL void *\nhev_calloc", "    void *data = hev_malloc (size);\n\n    return data ? memset (data, 0, size) : NULL;\n}\n\nEXPORT_SYMBOL void *\nhev_calloc")]),
    ("s-mem-calloc", "same", [], [(MAP, "    size *= nmemb;\n    allocator = hev_memory_allocator_default ();\n    data = hev_memory_allocator_alloc (allocator, size);\n    if (data)\n        memset (data, 0, size);\n    return data;", "    return hev_malloc0 (size * nmemb);"), (MAP, "hev_calloc (size_t nmemb, size_t size)\n{\n    HevMemoryAllocator *allocator;\n    void *data;\n\n", "hev_calloc (size_t nmemb, size_t size)\n{\n")]),
    # C27
    ("dns-nolock", "bug", ["C27"], [(DNP, "    hev_task_mutex_lock (&self->mutex);\n\n    self->call = call;\n", "    self->call = call;\n    hev_task_mutex_lock (&self->mutex);\n")]),
    ("dns-ifread", "bug", ["C27"], [(DNP, "    while (0 < res) {\n        char sync;\n        int len = read (self->fd, &sync, sizeof (sync));\n        if ((0 <= len) || (EAGAIN != errno))\n            break;\n\n        hev_task_yield (HEV_TASK_WAITIO);\n    }", "    if (0 < res) {\n        char sync;\n        int len = read (self->fd, &sync, sizeof (sync));\n        if ((0 > len) && (EAGAIN == errno)) {\n            hev_task_yield (HEV_TASK_WAITIO);\n            len = read (self->fd, &sync, sizeof (sync));\n        }\n    }")]),
    ("dns-taskearly", "bug", ["C27"], [(DNP, "    hev_task_mutex_lock (&self->mutex);\n\n    self->call = call;\n    self->sched_entity.task = hev_task_self ();\n", "    self->sched_entity.task = hev_task_self ();\n    hev_task_mutex_lock (&self->mutex);\n\n    self->call = call;\n")]),
    ("dns-dummylate", "bug", ["C27"], [(DNP, "    self->sched_entity.task = &dummy_task;\n\n    hev_task_mutex_unlock (&self->mutex);", "    hev_task_mutex_unlock (&self->mutex);\n\n    self->sched_entity.task = &dummy_task;")]),
    ("dns-unlockearly", "bug", ["C27"], [(DNP, "    while (0 < res) {", "    hev_task_mutex_unlock (&self->mutex);\n    while (0 < res) {"), (DNP, "    self->sched_entity.task = &dummy_task;\n\n    hev_task_mutex_unlock (&self->mutex);", "    self->sched_entity.task = &dummy_task;")]),
    ("dns-yield", "bug", ["C27"], [(DNP, "        int len = read (self->fd, &sync, sizeof (sync));\n        if ((0 <= len) || (EAGAIN != errno))\n            break;\n\n        hev_task_yield (HEV_TASK_WAITIO);", "        int len = read (self->fd, &sync, sizeof (sync));\n        if ((0 <= len) || (EAGAIN != errno))\n            break;\n\n        hev_task_yield (HEV_TASK_YIELD);")]),
    ("dns-errno", "bug", ["C27"], [(DNP, "    gni->err = errno;\n", "    gni->err = gni->ret;\n")]),
    ("dns-err2", "bug", ["C27"], [(DNP, "    hev_task_dns_proxy_call (self, &gni.base);\n\n    errno = gni.err;", "    errno = gni.err;\n    hev_task_dns_proxy_call (self, &gni.base);\n")]),
    ("dns-ret0", "bug", ["C27"], [(DNP, "    gai.ret = EAI_SYSTEM;", "    gai.ret = 0;")]),
    ("dns-swap", "bug", ["C27"], [(DNP, "    gni.nodelen = nodelen;", "    gni.nodelen = servicelen;")]),
    ("dns-swap2", "bug", ["C27"], [(DNP, "gni->service, gni->servicelen, gni->flags", "gni->service, gni->nodelen, gni->flags")]),
    ("dns-type", "bug", ["C27"], [(DNP, "    gni.base.type = HEV_TASK_DNS_CALL_GETNAMEINFO;", "    gni.base.type = HEV_TASK_DNS_CALL_GETADDRINFO;")]),
    ("dns-noans", "bug", ["C27"], [(DNP, "            if ((0 <= res) || (EAGAIN != errno))\n                break;\n\n            pfd.fd", "            if ((0 <= res) || (EAGAIN == errno))\n                break;\n\n            pfd.fd")]),
    ("dns-early", "bug", ["C27"], [(DNP, "        switch (proxy->call->type) {", "        if (proxy->call->type == HEV_TASK_DNS_CALL_GETNAMEINFO)\n            write (proxy->work.fd, &sync, sizeof (sync));\n        switch (proxy->call->type) {"), (DNP, "#include <poll.h>", "#pragma GCC diagnostic ignored \"-Wunused-result\"\n#include <poll.h>")]),
    ("dns-late", "bug", ["C27"], [(DNP, "            poll (&pfd, 1, -1);\n        }\n", "            poll (&pfd, 1, -1);\n        }\n        proxy->call->type = -1;\n")]),
    ("dns-noproxy", "bug", ["C27"], [(DNS, "    if (!proxy) {\n        errno = EIO;\n        return EAI_SYSTEM;\n    }\n\n    return hev_task_dns_proxy_getaddrinfo", "    if (!proxy) {\n        errno = EIO;\n        return 0;\n    }\n\n    return hev_task_dns_proxy_getaddrinfo")]),
    ("dns-inline", "bug", ["C27"], [(DNS, "    if (!proxy) {\n        errno = EIO;\n        return EAI_SYSTEM;\n    }\n\n    return hev_task_dns_proxy_getaddrinfo", "    if (!proxy)\n        return getaddrinfo (node, service, hints, res);\n\n    return hev_task_dns_proxy_getaddrinfo")]),
    ("dns-static", "bug", ["C27"], [(DNS, "    HevTaskSystemContext *context;\n\n    context = hev_task_system_get_context ();\n\n    if (!context->dns_proxy)\n        context->dns_proxy = hev_task_dns_proxy_new ();\n\n    return context->dns_proxy;", "    static HevTaskDNSProxy *proxy;\n    HevTaskSystemContext *context;\n\n    context = hev_task_system_get_context ();\n\n    if (!proxy)\n        proxy = hev_task_dns_proxy_new ();\n    context->dns_proxy = proxy;\n\n    return proxy;")]),
    ("dns-close", "bug", ["C27"], [(DNP, "    hev_task_aide_del (&self->work);\n    close (self->work.fd);", "    close (self->work.fd);\n    hev_task_aide_del (&self->work);")]),
    ("dns-data", "bug", ["C27"], [(DNP, "    self->work.data = self;\n    res = hev_task_aide_add (&self->work);\n    if (0 > res)\n        goto close;", "    res = hev_task_aide_add (&self->work);\n    if (0 > res)\n        goto close;\n    self->work.data = self;")]),
    ("dns-sameend", "bug", ["C27"], [(DNP, "    self->work.fd = fds[1];", "    self->work.fd = fds[0];")]),
    ("dns-pollin", "bug", ["C27"], [(DNP, "                                                 POLLIN | POLLOUT,", "                                                 POLLOUT,")]),
    ("dns-aideinit", "bug", ["C27"], [(DNP, "    res = hev_task_aide_init ();\n    if (0 > res)\n        return NULL;\n", "    hev_task_aide_init ();\n")]),
    ("dns-aderr", "bug", ["C27"], [(DNP, "    res = hev_task_aide_add (&self->work);\n    if (0 > res)\n        goto close;", "    hev_task_aide_add (&self->work);")]),
    ("aide-if", "bug", ["C27"], [(AID, "            while (!started)\n", "            if (!started)\n")]),
    ("aide-nolock", "bug", ["C27"], [(AID, "    pthread_mutex_lock (&work_mutex);\n    res = hev_task_io_reactor_setup (reactor, revents, count);\n    pthread_mutex_unlock (&work_mutex);\n", "    res = hev_task_io_reactor_setup (reactor, revents, count);\n")]),
    ("aide-fetch", "bug", ["C27"], [(AID, "        pthread_mutex_lock (&work_mutex);\n        count = hev_task_io_reactor_wait (reactor, events, 256, 0);\n", "        count = hev_task_io_reactor_wait (reactor, events, 256, 0);\n        pthread_mutex_lock (&work_mutex);\n")]),
    ("aide-block", "bug", ["C27"], [(AID, "hev_task_io_reactor_wait (reactor, events, 256, 0)", "hev_task_io_reactor_wait (reactor, events, 256, -1)")]),
    ("aide-count", "bug", ["C27"], [(AID, "        for (i = 0; i < count; i++) {", "        for (i = 1; i < count; i++) {")]),
    ("aide-count2", "bug", ["C27"], [(AID, "        for (i = 0; i < count; i++) {", "        for (i = 0; i < count - 1; i++) {")]),
    ("aide-count3", "bug", ["C27"], [(AID, "        for (i = 0; i < count; i++) {", "        for (i = 0; i < count && i < 64; i++) {")]),
    ("aide-signal", "bug", ["C27"], [(AID, "    pthread_cond_signal (&cond);\n    pthread_mutex_unlock (&mutex);\n\n    if (!reactor)", "    if (reactor)\n        pthread_cond_signal (&cond);\n    pthread_mutex_unlock (&mutex);\n\n    if (!reactor)")]),
    ("aide-create", "bug", ["C27"], [(AID, "        res = reactor ? 0 : -1;\n", "")]),
    ("aide-twice", "bug", ["C27"], [(AID, "    pthread_mutex_lock (&mutex);\n    if (!reactor) {\n        started = 0;", "    if (reactor)\n        return 0;\n    pthread_mutex_lock (&mutex);\n    {\n        started = 0;")]),
    ("aide-started", "bug", ["C27"], [(AID, "    pthread_mutex_lock (&mutex);\n    reactor = hev_task_io_reactor_new ();\n    started = 1;", "    started = 1;\n    pthread_mutex_lock (&mutex);\n    reactor = hev_task_io_reactor_new ();")]),
    ("aide-data", "bug", ["C27"], [(AID, "work->handler (revents, work->data);", "work->handler (revents, work);")]),
    ("s-dns-while", "same", [], [(DNP, "    for (;;) {\n        char sync = 's';\n        res = write (self->fd, &sync, sizeof (sync));\n        if ((0 <= res) || (EAGAIN != errno))\n            break;\n\n        hev_task_yield (HEV_TASK_WAITIO);\n    }", "    char token = 's';\n    while ((res = write (self->fd, &token, 1)) < 0 && errno == EAGAIN)\n        hev_task_yield (HEV_TASK_WAITIO);")]),
    ("s-dns-order", "same", [], [(DNP, "    self->call = call;\n    self->sched_entity.task = hev_task_self ();", "    self->sched_entity.task = hev_task_self ();\n    self->call = call;")]),
    ("s-dns-helper", "same", [], [(DNP, "static void\nhev_task_dns_proxy_call (HevTaskDNSProxy *self, HevTaskDNSCall *call)\n{", "static int\ntoken_get (int fd)\n{\n    char sync;\n    int len;\n\n    for (;;) {\n        len = read (fd, &sync, sizeof (sync));\n        if ((0 <= len) || (EAGAIN != errno))\n            return len;\n        hev_task_yield (HEV_TASK_WAITIO);\n    }\n}\n\nstatic void\nhev_task_dns_proxy_call (HevTaskDNSProxy *self, HevTaskDNSCall *call)\n{"), (DNP, "    while (0 < res) {\n        char sync;\n        int len = read (self->fd, &sync, sizeof (sync));\n        if ((0 <= len) || (EAGAIN != errno))\n            break;\n\n        hev_task_yield (HEV_TASK_WAITIO);\n    }", "    if (res > 0)\n        token_get (self->fd);")]),
    ("s-dns-local", "same", [], [(DNP, "        switch (proxy->call->type) {\n        case HEV_TASK_DNS_CALL_GETADDRINFO:\n            hev_task_dns_server_getaddrinfo (proxy->call);\n            break;\n        case HEV_TASK_DNS_CALL_GETNAMEINFO:\n            hev_task_dns_server_getnameinfo (proxy->call);\n            break;\n        }", "        HevTaskDNSCall *call = proxy->call;\n        if (call->type == HEV_TASK_DNS_CALL_GETADDRINFO)\n            hev_task_dns_server_getaddrinfo (call);\n        else\n            hev_task_dns_server_getnameinfo (call);")]),
    ("s-dns-while2", "same", [], [(DNP, "    for (;;) {\n        char sync = 's';\n        int res;\n\n        res = read (proxy->work.fd, &sync, sizeof (sync));\n        if (0 >= res)\n            break;\n", "    char sync = 's';\n    int res;\n\n    while (read (proxy->work.fd, &sync, sizeof (sync)) > 0) {")]),
    ("s-dns-table", "same", [], [(DNP, "    gai.base.type = HEV_TASK_DNS_CALL_GETADDRINFO;\n    gai.node = node;\n    gai.service = service;\n    gai.hints = hints;\n    gai.res = res;\n    gai.err = EIO;\n    gai.ret = EAI_SYSTEM;\n", "    gai = (HevTaskDNSCallGetAddrInfo){\n        .base = { HEV_TASK_DNS_CALL_GETADDRINFO },\n        .node = node,\n        .service = service,\n        .hints = hints,\n        .res = res,\n        .err = EIO,\n        .ret = EAI_SYSTEM,\n    };\n")]),
    ("s-dns-retlocal", "same", [], [(DNP, "    errno = gai.err;\n    return gai.ret;", "    int ret = gai.ret;\n    errno = gai.err;\n    return ret;")]),
    ("s-dns-once", "same", [], [(DNP, "    for (;;) {\n        char sync = 's';\n        int res;\n\n        res = read (proxy->work.fd, &sync, sizeof (sync));\n        if (0 >= res)\n            break;\n", "    do {\n        char sync = 's';\n        int res;\n\n        res = read (proxy->work.fd, &sync, sizeof (sync));\n        if (0 >= res)\n            break;\n"), (DNP, "            poll (&pfd, 1, -1);\n        }\n    }\n}", "            poll (&pfd, 1, -1);\n        }\n    } while (0);\n}")]),
    ("s-dns-newset", "same", [], [(DNP, "    self->fd = fds[0];\n    self->work.fd = fds[1];\n    self->work.events = POLLIN;\n    self->work.handler = hev_task_dns_server_handler;\n    self->work.data = self;\n    res = hev_task_aide_add", "    res = hev_task_aide_add"), (DNP, "    reactor = hev_task_system_get_context ()->reactor;", "    self->fd = fds[0];\n    self->work.fd = fds[1];\n    self->work.events = POLLIN;\n    self->work.handler = hev_task_dns_server_handler;\n    self->work.data = self;\n    reactor = hev_task_system_get_context ()->reactor;")]),
    ("s-dns-get", "same", [], [(DNS, "    if (!context->dns_proxy)\n        context->dns_proxy = hev_task_dns_proxy_new ();\n\n    return context->dns_proxy;", "    HevTaskDNSProxy *proxy = context->dns_proxy;\n    if (proxy)\n        return proxy;\n    proxy = hev_task_dns_proxy_new ();\n    context->dns_proxy = proxy;\n    return proxy;")]),
    ("s-aide-while", "same", [], [(AID, "        for (i = 0; i < count; i++) {", "        i = 0;\n        while (i < count) {"), (AID, "            work->handler (revents, work->data);\n", "            work->handler (revents, work->data);\n            i++;\n")]),
    ("s-aide-ptr", "same", [], [(AID, "        int i, count;", "        HevTaskIOReactorWaitEvent *ev;\n        int count;"), (AID, "        for (i = 0; i < count; i++) {", "        for (ev = events; ev < events + count; ev++) {"), (AID, "            work = hev_task_io_reactor_wait_event_get_data (&events[i]);\n            revents = hev_task_io_reactor_wait_event_get_events (&events[i]);", "            work = hev_task_io_reactor_wait_event_get_data (ev);\n            revents = hev_task_io_reactor_wait_event_get_events (ev);")]),
    ("s-aide-down", "same", [], [(AID, "        for (i = 0; i < count; i++) {", "        for (i = count - 1; i >= 0; i--) {")]),
    ("s-aide-helper", "same", [], [(AID, "static void *\nhev_task_aide_entry", "static void\nhandle_all (HevTaskIOReactorWaitEvent *events, int count)\n{\n    int i;\n\n    for (i = 0; i < count; i++) {\n        HevTaskAideWork *work;\n        unsigned int revents;\n\n        work = hev_task_io_reactor_wait_event_get_data (&events[i]);\n        revents = hev_task_io_reactor_wait_event_get_events (&events[i]);\n\n        work->handler (revents, work->data);\n    }\n}\n\nstatic void *\nhev_task_aide_entry"), (AID, "        for (i = 0; i < count; i++) {\n            HevTaskAideWork *work;\n            unsigned int revents;\n\n            work = hev_task_io_reactor_wait_event_get_data (&events[i]);\n            revents = hev_task_io_reactor_wait_event_get_events (&events[i]);\n\n            work->handler (revents, work->data);\n        }\n        pthread_mutex_unlock", "        handle_all (events, count);\n        pthread_mutex_unlock"), (AID, "        int i, count;", "        int count;")]),
    ("s-aide-init", "same", [], [(AID, "        res = reactor ? 0 : -1;\n    }\n    pthread_mutex_unlock (&mutex);\n\n    return res;", "    }\n    res = reactor ? 0 : -1;\n    pthread_mutex_unlock (&mutex);\n\n    return res;")]),
    ("s-aide-bcast", "same", [], [(AID, "    pthread_cond_signal (&cond);\n    pthread_mutex_unlock (&mutex);\n", "    pthread_mutex_unlock (&mutex);\n    pthread_cond_broadcast (&cond);\n")]),
    ("s-aide-local", "same", [], [(AID, "    reactor = hev_task_io_reactor_new ();\n    started = 1;\n", "    HevTaskIOReactor *r = hev_task_io_reactor_new ();\n    started = 1;\n    reactor = r;\n")]),
    ("s-aide-wide", "same", [], [(AID, "    count = hev_task_io_reactor_setup_event_gen (\n        revents, work->fd, HEV_TASK_IO_REACTOR_OP_DEL, 0, NULL);\n\n    pthread_mutex_lock (&work_mutex);\n", "    pthread_mutex_lock (&work_mutex);\n    count = hev_task_io_reactor_setup_event_gen (\n        revents, work->fd, HEV_TASK_IO_REACTOR_OP_DEL, 0, NULL);\n\n")]),
    # C28
    ("gl-class", "bug", ["C28"], [(CINU, "    static pthread_once_t once = PTHREAD_ONCE_INIT;\n\n    pthread_once (&once, hev_task_cio_null_class_init);\n", "    if (!HEV_OBJECT_CLASS (&klass)->name)\n        hev_task_cio_null_class_init ();\n")]),
    ("gl-key", "bug", ["C28"], [(SYS, "    pthread_once (&key_once, pthread_key_creator);\n", "    static int done;\n    (void)key_once;\n    if (!done) {\n        done = 1;\n        pthread_key_creator ();\n    }\n")]),
    ("gl-ctx", "bug", ["C28"], [(SYS, "HevTaskSystemContext *\nhev_task_system_get_context (void)\n{\n    return pthread_getspecific (key);", "static HevTaskSystemContext *last;\n\nHevTaskSystemContext *\nhev_task_system_get_context (void)\n{\n    if (!last)\n        last = pthread_getspecific (key);\n    return last;")]),
    ("gl-seq", "bug", ["C28"], [(TASK, "    self->sched_entity.task = self;", "    static int count;\n    self->next_priority = ++count;\n    self->sched_entity.task = self;")]),
    ("gl-events", "bug", ["C28"], [(SCH, "    int i, count;\n    HevTaskIOReactorWaitEvent events[1024];", "    int i, count;\n    static HevTaskIOReactorWaitEvent events[1024];")]),
    ("gl-time", "bug", ["C28"], [(TIM, "    struct timespec curr;\n    time_t sec;", "    static struct timespec curr;\n    time_t sec;")]),
    ("gl-timer", "bug", ["C28"], [(TFC, "    self = hev_malloc0 (sizeof (HevTaskTimerTimerFD));\n    if (!self)", "    static HevTaskTimerTimerFD timer;\n    self = &timer;\n    if (!self)")]),
    ("gl-page", "bug", ["C28"], [(STM, "    static int page_size;\n\n    if (!page_size)\n        page_size = getpagesize ();\n\n    size = ALIGN_UP (size, page_size);", "    static int page_size, full;\n\n    if (!page_size)\n        page_size = getpagesize ();\n\n    full = ALIGN_UP (size, page_size);\n    size = full;")]),
    ("gl-page2", "bug", ["C28"], [(STM, "    static int page_size;\n\n    if (!page_size)\n        page_size = getpagesize ();\n", "    static int page_size, mask;\n\n    if (!page_size) {\n        page_size = getpagesize ();\n        mask = page_size - 1;\n    }\n    size = (size + mask) & ~mask;\n")]),
    ("gl-page3", "bug", ["C28"], [(STM, "        page_size = getpagesize ();\n", "    {\n        page_size = 1;\n        while (page_size < getpagesize ())\n            page_size *= 2;\n    }\n")]),
    ("gl-fake", "bug", ["C28"], [(SCH, "    /* skip to wake up this task that is already in running */\n    if (task->state == HEV_TASK_RUNNING)\n        return;\n", "    ctx->current_task = ctx->current_task;\n    task->next_priority |= 0;\n    if (task->state == HEV_TASK_RUNNING)\n        return;\n")]),
    ("gl-reactor", "bug", ["C28"], [(SYS, "    context->reactor = hev_task_io_reactor_new ();\n", "    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;\n    static HevTaskIOReactor *reactor;\n    pthread_mutex_lock (&lock);\n    if (!reactor)\n        reactor = hev_task_io_reactor_new ();\n    pthread_mutex_unlock (&lock);\n    context->reactor = reactor;\n")]),
    ("gl-aide", "bug", ["C28"], [(AID, "    pthread_mutex_lock (&mutex);\n    reactor = hev_task_io_reactor_new ();\n    started = 1;", "    reactor = hev_task_io_reactor_new ();\n    pthread_mutex_lock (&mutex);\n    started = 1;")]),
    ("gl-aide2", "bug", ["C28"], [(AID, "    pthread_mutex_lock (&mutex);\n    if (!reactor) {\n        started = 0;", "    pthread_mutex_lock (&work_mutex);\n    if (!reactor) {\n        started = 0;"), (AID, "                pthread_cond_wait (&cond, &mutex);", "                pthread_cond_wait (&cond, &work_mutex);"), (AID, "        res = reactor ? 0 : -1;\n    }\n    pthread_mutex_unlock (&mutex);", "        res = reactor ? 0 : -1;\n    }\n    pthread_mutex_unlock (&work_mutex);")]),
    ("gl-slice", "bug", ["C28"], [(SLI, "    allocator = malloc (sizeof (HevMemoryAllocatorSlice));\n    if (!allocator)\n        return NULL;\n", "    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;\n    static HevMemoryAllocator *shared;\n    pthread_mutex_lock (&lock);\n    if (!shared)\n        shared = calloc (1, sizeof (HevMemoryAllocatorSlice));\n    allocator = shared;\n    pthread_mutex_unlock (&lock);\n    if (!allocator)\n        return NULL;\n"), (SLI, "#include <stdlib.h>", "#include <stdlib.h>\n#include <pthread.h>")]),
    ("gl-sleep", "bug", ["C28"], [(TIM, "    HevTaskTimerNode curr_node, *node = &curr_node;", "    static HevTaskTimerNode curr_node;\n    HevTaskTimerNode *node = &curr_node;")]),
    ("gl-yield", "bug", ["C28"], [(IOB, "hev_task_io_open (", "hev_task_io_opens (void)\n{\n    static unsigned int opens;\n    return opens++;\n}\n\nEXPORT_SYMBOL int\nhev_task_io_open (")]),
    ("s-gl-helper", "same", [], [(STM, "HevTaskStack *\nhev_task_stack_new (int size)\n{\n    HevTaskStack *self;\n    static int page_size;\n\n    if (!page_size)\n        page_size = getpagesize ();\n", "static int\nget_page_size (void)\n{\n    static int page_size;\n\n    if (!page_size)\n        page_size = getpagesize ();\n\n    return page_size;\n}\n\nHevTaskStack *\nhev_task_stack_new (int size)\n{\n    HevTaskStack *self;\n    int page_size = get_page_size ();\n")]),
    ("s-gl-sysconf", "same", [], [(STM, "        page_size = getpagesize ();\n", "        page_size = sysconf (_SC_PAGESIZE);\n"), (STM, "#include <sys/mman.h>", "#include <unistd.h>\n#include <sys/mman.h>")]),
    ("s-gl-lock", "same", [], [(AID, "int\nhev_task_aide_init (void)\n{\n    int res = 0;\n\n    pthread_mutex_lock (&mutex);\n    if (!reactor) {", "static void\naide_lock (void)\n{\n    pthread_mutex_lock (&mutex);\n}\n\nint\nhev_task_aide_init (void)\n{\n    int res = 0;\n\n    aide_lock ();\n    if (!reactor) {")]),
    ("s-gl-start", "same", [], [(AID, "int\nhev_task_aide_init (void)\n{\n    int res = 0;\n\n    pthread_mutex_lock (&mutex);\n    if (!reactor) {\n        started = 0;\n        res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);\n        if (0 == res) {\n            while (!started)\n                pthread_cond_wait (&cond, &mutex);\n            if (!reactor)\n                pthread_join (thread, NULL);\n        }\n        res = reactor ? 0 : -1;\n    }\n", "static int\naide_start (void)\n{\n    started = 0;\n    if (0 == pthread_create (&thread, NULL, hev_task_aide_entry, NULL)) {\n        while (!started)\n            pthread_cond_wait (&cond, &mutex);\n        if (!reactor)\n            pthread_join (thread, NULL);\n    }\n    return reactor ? 0 : -1;\n}\n\nint\nhev_task_aide_init (void)\n{\n    int res = 0;\n\n    pthread_mutex_lock (&mutex);\n    if (!reactor)\n        res = aide_start ();\n")]),
    ("s-gl-fake", "same", [], [(TIM, "            self->sched_entity.task = node->task;\n", "            self->sched_entity.task = node ? node->task : &fake_task;\n")]),
    ("s-gl-wake", "same", [], [(SCH, "    /* skip to wake up this task that is already in running */\n    if (task->state == HEV_TASK_RUNNING)\n        return;\n\n    if (task->state == HEV_TASK_STOPPED)\n        abort ();\n", "    switch (task->state) {\n    case HEV_TASK_RUNNING:\n        return;\n    case HEV_TASK_STOPPED:\n        abort ();\n    default:\n        break;\n    }\n")]),
    ("s-gl-poll", "same", [], [(SCH, "        sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);\n        hev_task_system_wakeup_task_with_context (ctx, sched_entity->task);", "        HevTask *task;\n\n        sched_entity = hev_task_io_reactor_wait_event_get_data (&events[i]);\n        task = sched_entity->task;\n        if (task->state == HEV_TASK_RUNNING)\n            continue;\n        hev_task_system_wakeup_task_with_context (ctx, task);")]),
    ("s-gl-const", "same", [], [(IOB, "hev_task_io_open (", "hev_task_io_limit (void)\n{\n    static const int limit = 4;\n    return limit;\n}\n\nEXPORT_SYMBOL int\nhev_task_io_open (")]),
    # ---- C31
    ("rb-case2col", "bug", ["C31"], [(RBT, "                if (tmp)\n                    hev_rbtree_node_set_parent_color (tmp, parent,\n                                                      HEV_RBTREE_BLACK);\n                hev_rbtree_node_set_parent_color (parent, node, HEV_RBTREE_RED);\n                parent = node;\n                tmp = node->left;", "                hev_rbtree_node_set_parent_color (parent, node, HEV_RBTREE_RED);\n                parent = node;\n                tmp = node->left;")]),
    ("rb-succ", "bug", ["C31"], [(RBT, "            successor->right = child;\n            hev_rbtree_node_set_parent (child, successor);", "            successor->right = child;")]),
    ("rb-child2", "bug", ["C31"], [(RBT, "hev_rbtree_node_set_parent_color (child2, parent, HEV_RBTREE_BLACK);", "hev_rbtree_node_set_parent (child2, parent);")]),
    ("rb-flip", "bug", ["C31"], [(RBT, "                    if (hev_rbtree_node_is_red (parent))\n                        hev_rbtree_node_set_black (parent);\n                    else {\n                        node = parent;\n                        parent = hev_rbtree_node_parent (node);\n                        if (parent)\n                            continue;\n                    }\n                    break;\n                }\n                /* Case 3 - left", "                    hev_rbtree_node_set_black (parent);\n                    break;\n                }\n                /* Case 3 - left")]),
    ("rb-replright", "bug", ["C31"], [(RBT, "    if (victim->right)\n        hev_rbtree_node_set_parent (victim->right, new);\n", "    if (victim->right && !victim->left)\n        hev_rbtree_node_set_parent (victim->right, new);\n")]),
    ("rb-next", "bug", ["C31"], [(RBT, "    while ((parent = hev_rbtree_node_parent (node)) && node == parent->right)\n        node = parent;", "    if ((parent = hev_rbtree_node_parent (node)) && node == parent->right)\n        parent = hev_rbtree_node_parent (parent);")]),
    ("rb-lmnext", "bug", ["C31"], [(RBC, "self->leftmost = hev_rbtree_node_next (node);", "self->leftmost = hev_rbtree_node_parent (node);")]),
    ("rb-lmrepl", "bug", ["C31"], [(RBC, "    if (self->leftmost == victim)\n        self->leftmost = new;\n", "")]),
    ("rb-lmlate", "bug", ["C31"], [(RBC, "    if (node == self->leftmost)\n        self->leftmost = hev_rbtree_node_next (node);\n\n    hev_rbtree_erase (&self->base, node);", "    hev_rbtree_erase (&self->base, node);\n\n    if (node == self->leftmost)\n        self->leftmost = hev_rbtree_node_next (node);")]),
    ("rb-insroot", "bug", ["C31"], [(RBT, "            hev_rbtree_node_set_parent_color (node, NULL, HEV_RBTREE_BLACK);\n", "            if (!node->left)\n                hev_rbtree_node_set_parent_color (node, NULL, HEV_RBTREE_BLACK);\n")]),
    ("s-rb-lm", "same", [], [(RBC, "    if (node == self->leftmost)\n        self->leftmost = hev_rbtree_node_next (node);\n\n    hev_rbtree_erase (&self->base, node);", "    HevRBTreeNode *next = hev_rbtree_node_next (node);\n\n    hev_rbtree_erase (&self->base, node);\n    if (node == self->leftmost)\n        self->leftmost = next;")]),
    ("s-rb-lmfirst", "same", [], [(RBC, "    if (self->leftmost == victim)\n        self->leftmost = new;\n", ""), (RBC, "    hev_rbtree_replace (&self->base, victim, new);\n", "    if (victim == self->leftmost)\n        self->leftmost = new;\n\n    hev_rbtree_replace (&self->base, victim, new);\n")]),
    ("s-rb-link", "same", [], [(RBT, "    if (parent) {\n        if (parent->left == old)\n            parent->left = new;\n        else\n            parent->right = new;\n    } else {\n        self->root = new;\n    }", "    HevRBTreeNode **link = &self->root;\n\n    if (parent)\n        link = (parent->right == old) ? &parent->right : &parent->left;\n    *link = new;")]),
    ("s-rb-mask", "same", [], [(RBT, "    node->__parent_color = hev_rbtree_node_color (node) | (unsigned long)parent;", "    node->__parent_color = (node->__parent_color & 3) + (unsigned long)parent;")]),
    ("s-rb-while", "same", [], [(RBT, "    while (1) {\n        /*\n         * Loop invariant: node is red.\n         */\n        if (!parent) {\n", "    for (;; parent = hev_rbtree_node_parent (node)) {\n        if (parent == NULL) {\n"), (RBT, "                hev_rbtree_node_set_parent_color (tmp, gparent,\n                                                  HEV_RBTREE_BLACK);\n                hev_rbtree_node_set_parent_color (parent, gparent,\n                                                  HEV_RBTREE_BLACK);\n                node = gparent;\n                parent = hev_rbtree_node_parent (node);\n                hev_rbtree_node_set_parent_color (node, parent, HEV_RBTREE_RED);\n                continue;\n            }\n\n            tmp = parent->right;", "                hev_rbtree_node_set_black (tmp);\n                hev_rbtree_node_set_black (parent);\n                node = gparent;\n                node->__parent_color &= ~1UL;\n                continue;\n            }\n\n            tmp = parent->right;")]),
    ("s-rb-succ", "same", [], [(RBT, "            do {\n                parent = successor;\n                successor = tmp;\n                tmp = tmp->left;\n            } while (tmp);\n            child2 = successor->right;", "            while (successor->left) {\n                parent = successor;\n                successor = successor->left;\n            }\n            child2 = successor->right;"), (RBT, "        tmp = child->left;\n        if (!tmp) {", "        parent = child;\n        if (!child->left) {")]),
    ("s-rb-first", "same", [], [(RBT, "    n = self->root;\n    if (!n)\n        return NULL;\n    while (n->left)\n        n = n->left;\n    return n;", "    HevRBTreeNode *f = NULL;\n\n    for (n = self->root; n; n = n->left)\n        f = n;\n    return f;")]),
    ("s-rb-repl", "same", [], [(RBT, "    /* Copy the pointers/colour from the victim to the replacement */\n    *new = *victim;\n", "    new->__parent_color = victim->__parent_color;\n    new->left = victim->left;\n    new->right = victim->right;\n")]),
    ("s-rb-rot", "same", [], [(RBT, "HevRBTreeNode *\nhev_rbtree_node_prev (", "static void\nrotate_left (HevRBTree *self, HevRBTreeNode *x)\n{\n    HevRBTreeNode *y = x->right;\n    HevRBTreeNode *p = hev_rbtree_node_parent (x);\n\n    x->right = y->left;\n    if (y->left)\n        hev_rbtree_node_set_parent (y->left, x);\n    hev_rbtree_node_set_parent (y, p);\n    if (!p)\n        self->root = y;\n    else if (x == p->left)\n        p->left = y;\n    else\n        p->right = y;\n    y->left = x;\n    hev_rbtree_node_set_parent (x, y);\n}\n\nHevRBTreeNode *\nhev_rbtree_node_prev ("), (RBT, "            gparent->right = tmp; /* == parent->left */\n            parent->left = gparent;\n            if (tmp)\n                hev_rbtree_node_set_parent_color (tmp, gparent,\n                                                  HEV_RBTREE_BLACK);\n            hev_rbtree_rotate_set_parents (self, gparent, parent,\n                                           HEV_RBTREE_RED);\n            break;\n        }", "            gparent->right = parent;\n            rotate_left (self, gparent);\n            hev_rbtree_node_set_black (parent);\n            gparent->__parent_color &= ~1UL;\n            break;\n        }")]),
    ("s-rb-layout", "same", [], [(RBH, "    HevRBTreeNode *right;\n    HevRBTreeNode *left;\n}", "    HevRBTreeNode *left;\n    HevRBTreeNode *right;\n}")]),
    # refactorings of the locks, lists, selector, executer and calls
    ("s2-cond-link", "same", [], [(CND, "EXPORT_SYMBOL int\nhev_task_cond_wait", "static inline void\ncond_link (HevTaskCond *self, HevTaskCondNode *node)\n{\n    HevTaskCondNode *first = self->waiters;\n\n    node->task = hev_task_self ();\n    node->next = first;\n    node->prev = NULL;\n    self->waiters = node;\n    if (first)\n        first->prev = node;\n}\n\nEXPORT_SYMBOL int\nhev_task_cond_wait"), (CND, "    node.prev = NULL;\n    node.next = self->waiters;\n    node.task = hev_task_self ();\n\n    if (self->waiters)\n        self->waiters->prev = &node;\n    self->waiters = &node;\n", "    cond_link (self, &node);\n"), (CND, "    node.prev = NULL;\n    node.next = self->waiters;\n    node.task = hev_task_self ();\n\n    if (self->waiters)\n        self->waiters->prev = &node;\n    self->waiters = &node;\n", "    cond_link (self, &node);\n")]),
    ("s2-cond-for", "same", [], [(CND, "    do {\n        hev_task_yield (HEV_TASK_WAITIO);\n    } while (READ_ONCE (node.task));", "    for (;;) {\n        hev_task_yield (HEV_TASK_WAITIO);\n        if (!READ_ONCE (node.task))\n            break;\n    }")]),
    ("s2-cond-while", "same", [], [(CND, "    do {\n        hev_task_yield (HEV_TASK_WAITIO);\n    } while (READ_ONCE (node.task));", "    while (READ_ONCE (node.task))\n        hev_task_yield (HEV_TASK_WAITIO);")]),
    ("s2-cond-tfor", "same", [], [(CND, "    while (milliseconds && READ_ONCE (node.task))\n        milliseconds = hev_task_sleep (milliseconds);", "    for (; milliseconds; milliseconds = hev_task_sleep (milliseconds)) {\n        if (!READ_ONCE (node.task))\n            break;\n    }")]),
    ("s2-cond-tdo", "same", [], [(CND, "    while (milliseconds && READ_ONCE (node.task))\n        milliseconds = hev_task_sleep (milliseconds);", "    if (milliseconds) {\n        do {\n            milliseconds = hev_task_sleep (milliseconds);\n        } while (milliseconds && READ_ONCE (node.task));\n    }")]),
    ("s2-cond-trev", "same", [], [(CND, "    while (milliseconds && READ_ONCE (node.task))\n        milliseconds = hev_task_sleep (milliseconds);", "    while (READ_ONCE (node.task)) {\n        if (milliseconds == 0)\n            break;\n        milliseconds = hev_task_sleep (milliseconds);\n    }")]),
    ("s2-cond-unl", "same", [], [(CND, "        if (node.prev)\n            node.prev->next = node.next;\n        if (node.next)\n            node.next->prev = node.prev;\n        if (self->waiters == &node)\n            self->waiters = node.next;\n        return -1;", "        HevTaskCondNode *n = node.next, *q = node.prev;\n\n        if (n)\n            n->prev = q;\n        if (q)\n            q->next = n;\n        else\n            self->waiters = n;\n        return -1;")]),
    ("s2-cond-unl2", "same", [], [(CND, "        if (node.prev)\n            node.prev->next = node.next;\n        if (node.next)\n            node.next->prev = node.prev;\n        if (self->waiters == &node)\n            self->waiters = node.next;\n        return -1;", "        if (self->waiters == &node)\n            self->waiters = node.next;\n        else\n            node.prev->next = node.next;\n        if (node.next)\n            node.next->prev = node.prev;\n        return -1;")]),
    ("s2-cond-res", "same", [], [(CND, "    if (READ_ONCE (node.task)) {\n        if (node.prev)", "    if (!READ_ONCE (node.task))\n        return 0;\n\n    {\n        if (node.prev)"), (CND, "        return -1;\n    }\n\n    return 0;\n}", "        return -1;\n    }\n}")]),
    ("s2-cond-unlh", "same", [], [(CND, "EXPORT_SYMBOL int\nhev_task_cond_timedwait", "static void\ncond_unlink (HevTaskCond *self, HevTaskCondNode *node)\n{\n    if (node->next)\n        node->next->prev = node->prev;\n    if (node->prev)\n        node->prev->next = node->next;\n    if (self->waiters == node)\n        self->waiters = node->next;\n}\n\nEXPORT_SYMBOL int\nhev_task_cond_timedwait"), (CND, "        if (node.prev)\n            node.prev->next = node.next;\n        if (node.next)\n            node.next->prev = node.prev;\n        if (self->waiters == &node)\n            self->waiters = node.next;\n        return -1;", "        cond_unlink (self, &node);\n        return -1;")]),
    ("s2-cond-sig", "same", [], [(CND, "    if (self->waiters) {\n        hev_task_wakeup (self->waiters->task);\n\n        self->waiters->task = NULL;\n        self->waiters = self->waiters->next;\n        if (self->waiters)\n            self->waiters->prev = NULL;\n    }\n\n    return 0;", "    HevTaskCondNode *node = self->waiters;\n    HevTaskCondNode *next;\n\n    if (!node)\n        return 0;\n\n    next = node->next;\n    if (next)\n        next->prev = NULL;\n    self->waiters = next;\n    hev_task_wakeup (node->task);\n    node->task = NULL;\n\n    return 0;")]),
    ("s2-cond-bc", "same", [], [(CND, "    while (self->waiters) {\n        hev_task_wakeup (self->waiters->task);\n\n        self->waiters->task = NULL;\n        self->waiters = self->waiters->next;\n    }", "    HevTaskCondNode *node;\n\n    for (node = self->waiters; node; node = node->next) {\n        hev_task_wakeup (node->task);\n        node->task = NULL;\n    }\n    self->waiters = NULL;")]),
    ("s2-cond-bcsig", "same", [], [(CND, "    while (self->waiters) {\n        hev_task_wakeup (self->waiters->task);\n\n        self->waiters->task = NULL;\n        self->waiters = self->waiters->next;\n    }", "    while (self->waiters)\n        hev_task_cond_signal (self);")]),
    ("s2-cond-pop", "same", [], [(CND, "EXPORT_SYMBOL int\nhev_task_cond_signal", "static inline void\ncond_pop (HevTaskCond *self)\n{\n    HevTaskCondNode *node = self->waiters;\n    HevTask *task = node->task;\n\n    self->waiters = node->next;\n    if (self->waiters)\n        self->waiters->prev = NULL;\n    node->task = NULL;\n    hev_task_wakeup (task);\n}\n\nEXPORT_SYMBOL int\nhev_task_cond_signal"), (CND, "    if (self->waiters) {\n        hev_task_wakeup (self->waiters->task);\n\n        self->waiters->task = NULL;\n        self->waiters = self->waiters->next;\n        if (self->waiters)\n            self->waiters->prev = NULL;\n    }\n", "    if (self->waiters)\n        cond_pop (self);\n"), (CND, "        hev_task_wakeup (self->waiters->task);\n\n        self->waiters->task = NULL;\n        self->waiters = self->waiters->next;\n    }", "        cond_pop (self);\n    }", "hev_task_cond_broadcast")]),
    ("s2-mtx-while", "same", [], [(MTX, "        do {\n            hev_task_yield (HEV_TASK_WAITIO);\n        } while (READ_ONCE (self->locker) ||\n                 READ_ONCE (self->waiters) != &node);", "        for (;;) {\n            hev_task_yield (HEV_TASK_WAITIO);\n            if (READ_ONCE (self->locker))\n                continue;\n            if (READ_ONCE (self->waiters) == &node)\n                break;\n        }")]),
    ("s2-mtx-swap", "same", [], [(MTX, "        } while (READ_ONCE (self->locker) ||\n                 READ_ONCE (self->waiters) != &node);", "        } while (READ_ONCE (self->waiters) != &node ||\n                 READ_ONCE (self->locker));")]),
    ("s2-mtx-head", "same", [], [(MTX, "        do {\n            hev_task_yield (HEV_TASK_WAITIO);\n        } while (READ_ONCE (self->locker) ||\n                 READ_ONCE (self->waiters) != &node);", "        while (READ_ONCE (self->locker) || READ_ONCE (self->waiters) != &node)\n            hev_task_yield (HEV_TASK_WAITIO);")]),
    ("s2-mtx-early", "same", [], [(MTX, "    if (self->locker) {\n        HevTaskMutexNode node;\n", "    HevTaskMutexNode node;\n\n    if (0 == hev_task_mutex_trylock (self))\n        return 0;\n\n    {"), (MTX, "EXPORT_SYMBOL int\nhev_task_mutex_lock", "EXPORT_SYMBOL int hev_task_mutex_trylock (HevTaskMutex *self);\n\nEXPORT_SYMBOL int\nhev_task_mutex_lock")]),
    ("s2-mtx-take", "same", [], [(MTX, "EXPORT_SYMBOL int\nhev_task_mutex_lock", "static inline void\nmutex_set (HevTaskMutex *self, int v)\n{\n    barrier ();\n    self->locker = v;\n    barrier ();\n}\n\nEXPORT_SYMBOL int\nhev_task_mutex_lock"), (MTX, "    barrier ();\n    self->locker = 1;\n    barrier ();\n\n    return 0;", "    mutex_set (self, 1);\n\n    return 0;", "hev_task_mutex_lock"), (MTX, "    barrier ();\n    self->locker = 1;\n    barrier ();\n\n    return 0;", "    mutex_set (self, 1);\n\n    return 0;", "hev_task_mutex_trylock"), (MTX, "    barrier ();\n    self->locker = 0;\n    barrier ();\n", "    mutex_set (self, 0);\n", "hev_task_mutex_unlock")]),
    ("s2-mtx-order", "same", [], [(MTX, "        node.next = self->waiters;\n        node.task = hev_task_self ();\n        self->waiters = &node;\n", "        HevTaskMutexNode *w = &node;\n\n        w->task = hev_task_self ();\n        w->next = self->waiters;\n        self->waiters = w;\n"), (MTX, "    if (self->waiters)\n        hev_task_wakeup (self->waiters->task);\n\n    return 0;", "    HevTaskMutexNode *first = self->waiters;\n    if (!first)\n        return 0;\n\n    hev_task_wakeup (first->task);\n    return 0;")]),
    ("s2-mtx-try", "same", [], [(MTX, "    if (self->locker)\n        return -1;\n\n    barrier ();\n    self->locker = 1;\n    barrier ();\n\n    return 0;", "    int res = -1;\n\n    if (!self->locker) {\n        barrier ();\n        self->locker = 1;\n        barrier ();\n        res = 0;\n    }\n\n    return res;")]),
    ("s2-mtx-wakefirst", "same", [], [(MTX, "    barrier ();\n    self->locker = 0;\n    barrier ();\n\n    if (self->waiters)\n        hev_task_wakeup (self->waiters->task);\n", "    if (self->waiters)\n        hev_task_wakeup (self->waiters->task);\n\n    barrier ();\n    self->locker = 0;\n    barrier ();\n")]),
    ("s2-list-add", "same", [], [(LST, "    new_->prev = self->tail;\n    new_->next = NULL;\n\n    if (self->tail)\n        self->tail->next = new_;\n    else\n        self->head = new_;\n    self->tail = new_;", "    HevListNode *last = self->tail;\n\n    new_->next = NULL;\n    new_->prev = last;\n    self->tail = new_;\n    *(last ? &last->next : &self->head) = new_;")]),
    ("s2-list-del", "same", [], [(LST, "    if (node->prev)\n        node->prev->next = node->next;\n    else\n        self->head = node->next;\n\n    if (node->next)\n        node->next->prev = node->prev;\n    else\n        self->tail = node->prev;", "    HevListNode *p = node->prev, *n = node->next;\n\n    if (n == NULL)\n        self->tail = p;\n    else\n        n->prev = p;\n\n    if (p == NULL)\n        self->head = n;\n    else\n        p->next = n;")]),
    ("s2-list-del2", "same", [], [(LST, "    if (node->prev)\n        node->prev->next = node->next;\n    else\n        self->head = node->next;\n\n    if (node->next)\n        node->next->prev = node->prev;\n    else\n        self->tail = node->prev;", "    if (self->head == node)\n        self->head = node->next;\n    else\n        node->prev->next = node->next;\n\n    if (self->tail == node)\n        self->tail = node->prev;\n    else\n        node->next->prev = node->prev;")]),
    ("s2-exec-if", "same", [], [(EXE, "    if (_setjmp (task->context) == 0)\n        return;\n\n    task->entry (task->data);\n\n    if (task->joiner)\n        hev_task_wakeup (task->joiner);\n\n    hev_task_system_kill_current_task ();", "    HevTask *joiner;\n\n    if (_setjmp (task->context)) {\n        task->entry (task->data);\n\n        joiner = task->joiner;\n        if (joiner)\n            hev_task_wakeup (joiner);\n\n        hev_task_system_kill_current_task ();\n    }")]),
    ("s2-exec-help", "same", [], [(EXE, "void\nhev_task_executer", "static void\nfinish (HevTask *task)\n{\n    if (task->joiner != NULL)\n        hev_task_wakeup (task->joiner);\n\n    hev_task_system_kill_current_task ();\n}\n\nvoid\nhev_task_executer"), (EXE, "    if (task->joiner)\n        hev_task_wakeup (task->joiner);\n\n    hev_task_system_kill_current_task ();\n}", "    finish (task);\n}", "hev_task_executer")]),
    ("s2-call-new", "same", [], [(CAL, "    self = hev_malloc (base_size + stack_size);\n    if (self) {\n        uintptr_t stack_addr;\n        stack_addr = (uintptr_t)((void *)self + base_size + stack_size);\n        self->stack_top = (void *)ALIGN_DOWN (stack_addr, 16);\n    }\n\n    return self;", "    int total = base_size + stack_size;\n    char *end;\n\n    self = hev_malloc (total);\n    if (!self)\n        return NULL;\n\n    end = (char *)self + total;\n    self->stack_top = end - ((uintptr_t)end & 15);\n\n    return self;"), (CAL, "#include <stdint.h>\n", "#include <stdint.h>\n#include <stddef.h>\n")]),
    ("s2-call-new2", "same", [], [(CAL, "        uintptr_t stack_addr;\n        stack_addr = (uintptr_t)((void *)self + base_size + stack_size);\n        self->stack_top = (void *)ALIGN_DOWN (stack_addr, 16);", "        uintptr_t top = (uintptr_t)self;\n        top += base_size;\n        top += stack_size;\n        top &= ~(uintptr_t)15;\n        self->stack_top = (void *)top;")]),
    ("s2-tfd-init", "same", [], [(TFD, "    struct itimerspec sp;\n\n    sp.it_value = *expire;\n    sp.it_interval.tv_sec = 0;\n    sp.it_interval.tv_nsec = 0;\n\n    return timerfd_settime (self->fd, TFD_TIMER_ABSTIME, &sp, NULL);", "    struct itimerspec sp = { { 0, 0 }, *expire };\n    int res;\n\n    res = timerfd_settime (self->fd, TFD_TIMER_ABSTIME, &sp, NULL);\n    return res;")]),
    ("s2-sel-split", "same", [], [(SEL, "    while (!(node = hev_list_first (list)) && milliseconds) {\n        barrier ();\n        if (timeout < 0)\n            hev_task_yield (HEV_TASK_WAITIO);\n        else\n            milliseconds = hev_task_sleep (milliseconds);\n        barrier ();\n    }\n\n    return node;", "    for (;;) {\n        node = hev_list_first (list);\n        if (node)\n            return node;\n        if (!milliseconds)\n            return NULL;\n\n        barrier ();\n        if (timeout >= 0)\n            milliseconds = hev_task_sleep (milliseconds);\n        else\n            hev_task_yield (HEV_TASK_WAITIO);\n        barrier ();\n    }")]),
    ("s2-sel-cond", "same", [], [(SEL, "    if (!node)\n        return NULL;\n\n    return container_of (node, HevTaskChannel, read.node);", "    return node ? container_of (node, HevTaskChannel, read.node) : NULL;"), (SEL, "    hev_task_channel_select_del_read (self, chan);\n    hev_task_channel_select_del_write (self, chan);\n    hev_list_del (&self->chan_list, &chan->chan_node);\n\n    chan->task = NULL;\n    chan->select = NULL;", "    chan->select = NULL;\n    chan->task = NULL;\n    hev_list_del (&self->chan_list, &chan->chan_node);\n    hev_task_channel_select_del_write (self, chan);\n    hev_task_channel_select_del_read (self, chan);")]),
    ("s2-sel-priv", "same", [], [(SEP, "    if (chan->read.used)\n        return;\n\n    chan->read.used = 1;\n    hev_list_add_tail (&self->read_list, &chan->read.node);", "    if (!chan->read.used) {\n        hev_list_add_tail (&self->read_list, &chan->read.node);\n        chan->read.used = 1;\n    }"), (SEP, "    if (!chan->write.used)\n        return;\n\n    chan->write.used = 0;\n    hev_list_del (&self->write_list, &chan->write.node);", "    if (chan->write.used) {\n        hev_list_del (&self->write_list, &chan->write.node);\n        chan->write.used = 0;\n    }")]),
    ("poll-pass0", "bug", ["C30"], [("src/lib/io/poll/hev-task-io-poll.c", "            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&\n", "            if (fds[i].fd <= 0)\n                continue;\n            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&\n")]),
    ("poll-passrev", "bug", ["C30"], [("src/lib/io/poll/hev-task-io-poll.c", "            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&\n", "            if (fds[i].revents)\n                continue;\n            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&\n")]),
    ("run-cur", "bug", ["C03", "C04"], [("src/kern/core/hev-task-system-schedule.c", "        ctx->current_task = NULL;\n        return;", "        return;")]),
    ("s-poll-neg", "same", [], [("src/lib/io/poll/hev-task-io-poll.c", "            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&\n", "            if (fds[i].fd < 0)\n                continue;\n            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0 &&\n")]),
    ("s-poll-over", "same", [], [("src/lib/io/poll/hev-task-io-poll.c", "        for (i = 0; i < nfds; i++) {", "        for (i = 0; i < nfds && res == 0; i++) {")]),
]
