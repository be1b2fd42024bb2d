// Layout of the memory shared between the harness (Rust, mirrored in sim/src/os.rs) and the
// simulated operating system that is preloaded into every simulated process.
#ifndef SIMOS_H
#define SIMOS_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d4f53303033ull
#define REGION_SIZE (48u << 20)

#define MAX_INO 1024
#define MAX_DENT 1024
#define NAME_LEN 256
#define MAX_PROC 6
#define MAX_FD 64
#define MAX_DEC 4096
#define MAX_LOG 60000

#define HDR_OFF 0u
#define INO_OFF (1u << 16)
#define DENT_OFF (INO_OFF + MAX_INO * 64u)
#define DEC_OFF (DENT_OFF + MAX_DENT * (NAME_LEN + 16u))
#define LOG_OFF (1u << 20)
#define DATA_OFF (8u << 20) /* bump-allocated: file data, log data, strings */

enum { T_FREE = 0, T_FILE = 1, T_DIR = 2, T_LINK = 3 };

// inode flags: lasting conditions of the simulated disk
enum {
  IF_EIO_READ = 1,   // reads at or beyond `fault_at` fail with EIO
  IF_EIO_LIST = 2,   // listing fails with EIO after `fault_at` entries
  IF_OTHERFS = 4,    // lies on another file system (rename in or out fails with EXDEV)
  IF_EIO_STAT = 8,   // stat by path fails with EIO
};

typedef struct {
  uint32_t type, mode, nlink, uid, gid;
  uint32_t size, cap;
  uint32_t data; // offset into the region
  uint32_t flags, fault_at;
  uint32_t opens; // open descriptions
  uint32_t lock;  // flock: 0 none, 1.. shared count, 0x80000000 exclusive
  uint32_t mtime;
  uint32_t pad[3];
} Ino; // 64 bytes

typedef struct {
  uint32_t used, parent, ino, namelen;
  char name[NAME_LEN];
} Dent;

// a decision: at step `step`, decision kind `kind` has value `val`
typedef struct {
  uint32_t step, kind, val, pad;
} Dec;

enum {
  D_ERR = 1,    // lasting error: 1 + index into the error list of the operation
  D_EINTR = 2,  // interrupted once before succeeding
  D_SHORT = 3,  // transfer only `val` bytes
  D_KILL = 4,   // this process is killed here (2: in the middle of the operation)
  D_SCHED = 5,  // run process (val-1) next
  D_DIR = 6,    // permutation seed of a directory listing
  D_LIVE = 7,   // directory listing shows later changes / stale entries / unknown types (bits)
  D_RAND = 8,   // salt for random bytes
  D_CLOCK = 9,  // clock jump
  D_MAX = 10
};

enum {
  OP_NONE = 0, OP_OPEN = 1, OP_READ = 2, OP_WRITE = 3, OP_CLOSE = 4, OP_STAT = 5, OP_OPENDIR = 6,
  OP_READDIR = 7, OP_RENAME = 8, OP_UNLINK = 9, OP_MKDIR = 10, OP_FSYNC = 11, OP_TRUNC = 12,
  OP_CHMOD = 13, OP_LINK = 14, OP_SYMLINK = 15, OP_READLINK = 16, OP_REALPATH = 17, OP_FSTAT = 18,
  OP_EXIT = 19, OP_RMDIR = 20, OP_LSEEK = 21, OP_ACCESS = 22, OP_RANDOM = 23, OP_CLOCK = 24,
  OP_CREATE = 25, OP_CHOWN = 26, OP_UTIMES = 27, OP_LOCK = 28, OP_KILLED = 29, OP_CHDIR = 30,
  OP_ESCAPE = 31, OP_MAX = 32
};

typedef struct {
  uint32_t step;
  uint16_t op, pid;
  int32_t ret, err;
  uint32_t ino, ino2;     // object; rename/link: replaced or second object
  uint32_t parent, dent;  // directory inode; name string offset in the region
  uint32_t parent2, dent2;
  uint32_t off, len;      // transfer position and length (or new size / mode)
  uint32_t data;          // offset of the written bytes in the region
  uint32_t fault;         // which decision kind fired here (0 none)
  uint32_t pad[2];
} Rec; // 64 bytes

typedef struct {
  uint32_t state;  // 0 not present, 1 alive, 2 exited, 3 killed
  uint32_t ops;
  uint32_t cwd;    // inode
  uint32_t umask;
  uint32_t in_data, in_len, in_pos, in_flags; // stdin; flag 1: EIO at in_fault
  uint32_t in_fault;
  uint32_t out_data, out_len, out_cap;
  uint32_t err_data, err_len, err_cap;
  uint32_t out_limit; // stdout accepts this many bytes, then out_errno (0xffffffff: unlimited)
  uint32_t out_errno;
  uint32_t uid;
  uint32_t kill_at;   // kill before this per-process operation (0: never)
  uint32_t pad[13];
} Proc; // 128 bytes

typedef struct {
  uint64_t magic;
  uint64_t rng;        // state of the random mode
  uint32_t random;     // 1: draw decisions, 0: take them from the decision list only
  uint32_t ndec;       // recorded (random) or given (replay) decisions
  uint32_t step;       // global operation counter
  uint32_t max_steps;
  uint32_t nino, ndent;
  uint32_t bump;       // next free offset in the data area
  uint32_t nlog;
  uint32_t turn;       // futex: process allowed to run
  uint32_t nproc;
  uint32_t overrun;    // 1: step limit, 2: memory, 4: table
  uint32_t disk_free;  // bytes
  uint32_t root;
  uint32_t clock_ms;
  uint32_t hard_left;  // lasting errors still allowed in this run
  uint32_t escapes;    // attempts to modify something outside the simulation
  uint32_t rate[D_MAX];    // probability of each decision kind, in 1/65536
  uint32_t opmask;         // operations on which lasting errors may be injected
  uint32_t fired[D_MAX];
  uint32_t fired_op[OP_MAX];  // lasting errors by operation
  uint32_t count_op[OP_MAX];
  uint32_t threads;
  uint32_t blocked;    // deadlock on locks
  uint32_t natural_enospc;
  uint32_t natural_eio;
  uint32_t unsupported; // calls the simulation refused
  uint32_t startup_turns;
  uint32_t sched_points; // scheduling decisions asked for so far (their key instead of the step)
  uint32_t pad;
  Proc proc[MAX_PROC];
} Hdr;

#endif
