def mm(code, n, conf="", secs=30):
    return '#include "mini.h"\n' + code.strip() + '\nint main() { return mini(%d, "%s", prog, %d); }\n' % (n, conf.replace("\n", "\\n"), secs)
def seed(id, edits, needs, breaks, demo): return dict(id=id, property="P19", np=1, edits=edits, needs=needs, breaks=breaks, demo=demo, run="timeout 100 ./demo", raw=True)
T = "src/backends/tcp/"
SEEDS = [
seed("p19-refused-forgotten", [(T + "messenger.c", """            CHECK (laik_tcp_socket_receive_uint64 (socket, &response));
            if (response) {
                laik_tcp_map_discard (this->outbox, task->header);
            }""", """            CHECK (laik_tcp_socket_receive_uint64 (socket, &response));
            laik_tcp_map_discard (this->outbox, task->header);""")],
  "a message offered while the inbox of the receiver is full", "messages refused by the receiver are removed from the outbox and lost",
  mm(r'''
static void prog(int me, int n)
{
  char b[40];
  if (me == 0) for (int i = 0; i < 4; i++) { memset(b, i + 1, 40); OK(sendn(1, 7, b, 40)); }
  else { ms(500); for (int i = 0; i < 4; i++) { memset(b, 0, 40); OK(recvn(0, 7, b, 40)); EXPECT(b[0] == i + 1 && b[39] == i + 1, "message %d contains %d", i, b[0]); } }
}''', 2, "inbox_size = 50\n")),
seed("p19-add-full", [(T + "messenger.c", "                laik_tcp_map_add (this->inbox, task->header, body);\n            }", "                CHECK (laik_tcp_map_try (this->inbox, task->header, body));\n            }")],
  "a receiver asking for a message while its inbox is full with messages it takes later", "the message asked for is thrown away",
  mm(r"""
static void prog(int me, int n)
{
  char b[40];
  if (me == 0) for (int i = 1; i < 5; i++) { memset(b, i, 40); OK(sendn(1, i, b, 40)); }
  else { ms(500); for (int i = 4; i > 0; i--) { memset(b, 0, 40); OK(recvn(0, i, b, 40)); EXPECT(b[0] == i, "message %d contains %d", i, b[0]); } }
}""", 2, "inbox_size = 50\n")),
seed("p19-discard-silent", [(T + "map.c", """    this->size = laik_tcp_map_minus (this->size, g_bytes_get_size (value));

    g_hash_table_insert (this->hash, g_bytes_ref (key), NULL);

    laik_tcp_condition_broadcast (this->condition);
""", """    this->size = laik_tcp_map_minus (this->size, g_bytes_get_size (value));

    g_hash_table_insert (this->hash, g_bytes_ref (key), NULL);
""")],
  "a send which has to wait for room in the outbox, with nothing added to it meanwhile", "the sender waits forever although its messages were delivered",
  mm(r'''
static void prog(int me, int n)
{
  char b[40];
  for (int i = 0; i < 10; i++)
    if (me == 0) { memset(b, i + 1, 40); OK(sendn(1, 7, b, 40)); }
    else { memset(b, 0, 40); OK(recvn(0, 7, b, 40)); EXPECT(b[0] == i + 1, "message %d contains %d", i, b[0]); }
}''', 2, "outbox_size = 50\n")),
seed("p19-short-tags", [(T + "minimpi.c", """        GUINT64_TO_LE (receiver),
        GUINT64_TO_LE (tag),
""", """        GUINT64_TO_LE (receiver),
        GUINT64_TO_LE (tag & 0xff),
""")],
  "messages with tags which differ by a multiple of 256, received in another order than sent", "messages are received with the wrong tag",
  mm(r'''
static void prog(int me, int n)
{
  char a[4] = "aaa", b[4] = "bbb";
  if (me == 0) { OK(sendn(1, 3, a, 4)); OK(sendn(1, 3 + 512, b, 4)); }
  else { char x[4], y[4]; OK(recvn(0, 3 + 512, x, 4)); OK(recvn(0, 3, y, 4)); EXPECT(!memcmp(x, b, 4) && !memcmp(y, a, 4), "got %s %s", x, y); }
}''', 2)),
seed("p19-ask-once", [(T + "messenger.c", """            // Failure, queue a GET for the message
            laik_tcp_client_push (this->client, laik_tcp_task_new (MESSAGE_GET, sender, header));""",
"""            // Failure, queue a GET for the message, the sender will offer it once it is there
            if (attempt == 0) {
                laik_tcp_client_push (this->client, laik_tcp_task_new (MESSAGE_GET, sender, header));
            }""")],
  "a receiver asking for a message before it exists, which is refused later because the inbox is full", "the message is never delivered",
  mm(r'''
static void prog(int me, int n)
{
  char b[40];
  if (me == 0) { ms(700); for (int i = 1; i < 4; i++) { memset(b, i, 40); OK(sendn(1, i, b, 40)); } }
  else for (int i = 3; i > 0; i--) { memset(b, 0, 40); OK(recvn(0, i, b, 40)); EXPECT(b[0] == i, "message %d contains %d", i, b[0]); }
}''', 2, "inbox_size = 50\n")),
seed("p19-split-undefined", [(T + "minimpi.c", "        if (split.rank == comm->rank || (split.color == color && split.color != LAIK_TCP_MINIMPI_UNDEFINED)) {",
 "        if (split.rank == comm->rank || split.color == color) {")],
  "several tasks splitting without a colour", "they get into one communicator instead of one of their own each",
  mm(r'''
static void prog(int me, int n)
{
  Laik_Tcp_MiniMpiComm* c; int r, s;
  OK(laik_tcp_minimpi_comm_split(WORLD, me == 1 ? 5 : LAIK_TCP_MINIMPI_UNDEFINED, n - me, &c));
  OK(laik_tcp_minimpi_comm_rank(c, &r)); OK(laik_tcp_minimpi_comm_size(c, &s));
  EXPECT(r == 0 && s == 1, "task %d has rank %d of %d", me, r, s);
}''', 3)),
]
