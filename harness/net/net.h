// In-memory network under the virtual scheduler of vt.c. See net.c.
#ifndef NET_H
#define NET_H
#include <stdint.h>
#include <stddef.h>
#define NET_BASE 1000 // descriptors from here on are virtual
typedef struct {
  int frag;        // 1/frag of the reads return only part of what is there (0: never)
  int shortw;      // 1/shortw of the writes accept only part of the data (0: never)
  int intr;        // 1/intr of the calls fail with EINTR or EAGAIN first (0: never)
  int64_t lat;     // largest transmission delay of a segment
  int stall;       // 1/stall of the stream writes are held up for a long time before they begin, the first few times (0: never)
  int udp_loss, udp_dup; // 1/x of the datagrams are lost, duplicated (0: never)
} net_config_t;
extern net_config_t net_cfg;
// Called, with the network locked, for every byte written to a stream (dir: 0 by the connecting side, 1 by the accepting side).
extern void (*net_on_write)(int conn, int dir, const unsigned char* p, size_t n);
int net_wait_readable(int fd, int64_t deadline); // 1 when a read would not block, 0 when the deadline has come
int net_conn(int fd);                            // the number of the connection
int net_is_open(int fd);
int net_open_fds(void);
void net_dump(void);
#endif
