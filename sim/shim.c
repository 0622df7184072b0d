// shim.c - the simulated world a program under test runs in.
//
// LD_PRELOADed into the shipped binary. Before main() it turns the process into
// a fork server; for every request it forks a child that runs the program's real
// code from __libc_start_main on, with every system call trapped (seccomp) and
// answered here by a simulated kernel: files, streams, terminal, clock,
// randomness, identities, memory, threads' schedule. Nothing of the real
// machine is reachable from the child. Everything is decided by the request.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <sys/sysinfo.h>
#include <sys/auxv.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <linux/futex.h>
#include <linux/stat.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- raw syscalls
extern char sim_raw_ip[];
__asm__(
".text\n.globl sim_raw\n.hidden sim_raw\n.type sim_raw,@function\nsim_raw:\n"
"  mov %rdi,%rax\n  mov %rsi,%rdi\n  mov %rdx,%rsi\n  mov %rcx,%rdx\n  mov %r8,%r10\n  mov %r9,%r8\n  mov 8(%rsp),%r9\n"
"  syscall\n.globl sim_raw_ip\n.hidden sim_raw_ip\nsim_raw_ip:\n  ret\n");
long sim_raw(long nr, long a, long b, long c, long d, long e, long f);
#define RAW(nr,a,b,c,d,e,f) sim_raw(nr,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))

// ---------------------------------------------------------------- shared result
#define OUT_CAP (96u<<20)
#define ERR_CAP (4u<<20)
#define TRC_CAP (2u<<20)
#define EFF_CAP (8u<<20)
#define PRB_CAP (256u<<10)
#define WLG_CAP (32u<<20)
#define NCLASS 16
enum { C_WOUT, C_WERR, C_WFILE, C_RFILE, C_RSTDIN, C_OPEN, C_STAT, C_GETCWD, C_IOCTL, C_POLL, C_FSTAT, C_RANDOM, C_CLOSE, C_READLINK, C_MMAP, C_OTHER };
static const char *cname[NCLASS] = {"wout","werr","wfile","rfile","rstdin","open","stat","getcwd","ioctl","poll","fstat","random","close","readlink","mmap","other"};
#define MAXFAULT 256
enum { E_RUNNING=0, E_EXIT=1, E_SIMKILL=2, E_STEPS=3, E_MEM=4, E_OUTPUT=5, E_DEADLOCK=6, E_HARNESS=7 };
typedef struct {
	u32 magic, endkind; int code; u32 waitstatus;
	u64 steps, nalloc, peak, live, mapped, tracehash, shapehash, simtime_ns;
	u64 outlen, errlen, trclen, efflen, prblen, wlglen;
	u32 counts[NCLASS]; u32 fired[MAXFAULT]; u32 capfired[3]; u32 oomfired, killfired, editsfired, trctrunc, nthreads, switches, unknown;
	u64 steps_after_fault; // steps at the last fired fault
	u64 slept; // time the program chose to wait
} Res;
static Res *R; static u8 *OUTB,*ERRB,*TRCB,*EFFB,*PRBB,*WLGB;

static int active; // in a child, simulation on
static void die(int kind, int code) { R->endkind = kind; R->code = code; for(;;) RAW(SYS_exit_group, kind==E_EXIT?code:99,0,0,0,0,0); }

// ---------------------------------------------------------------- text helpers
static void app(u8 *b, u64 *len, u64 cap, const void *p, u64 n) { if (*len + n > cap) n = cap - *len; memcpy(b + *len, p, n); *len += n; }
static char LB[8192]; static u32 LN;
static void l_s(const char *s) { while (*s && LN < sizeof LB - 2) LB[LN++] = *s++; }
static void l_n(i64 v) { char t[24]; int i=0; u64 u = v<0 ? (u64)-v : (u64)v; if (v<0) l_s("-"); do { t[i++]='0'+u%10; u/=10; } while(u); while(i && LN < sizeof LB-2) LB[LN++]=t[--i]; }
static u64 fnv(u64 h, const void *p, u64 n) { const u8 *b=p; while(n--) { h ^= *b++; h *= 0x100000001b3ull; } return h; }
static void trace_flush(void) {
	LB[LN++]='\n'; R->tracehash = fnv(R->tracehash, LB, LN);
	if (R->trclen + LN <= TRC_CAP) app(TRCB,&R->trclen,TRC_CAP,LB,LN); else R->trctrunc = 1;
	LN = 0;
}
static void effect(const char *what, const char *path, i64 n) {
	char b[4300]; u64 k=0; const char *s; char hx[]="0123456789abcdef";
	for (s=what; *s; s++) b[k++]=*s; b[k++]=' ';
	for (s=path?path:"-"; *s && k<4200; s++) { u8 c=*s; if (c<=32||c>=127||c=='%') { b[k++]='%'; b[k++]=hx[c>>4]; b[k++]=hx[c&15]; } else b[k++]=c; }
	b[k++]=' '; char t[24]; int i=0; u64 u = n<0?(u64)-n:(u64)n; if(n<0) b[k++]='-'; do { t[i++]='0'+u%10; u/=10; } while(u); while(i) b[k++]=t[--i]; b[k++]='\n';
	app(EFFB,&R->efflen,EFF_CAP/2,b,k);
}
// modifications of the simulated file system, replayable by the controller: op, path, offset, data
static void wlog(char op, const char *path, u64 off, const void *p, u64 n) {
	u32 pl=strlen(path); if (R->wlglen+1+4+pl+8+8+n>WLG_CAP) die(E_OUTPUT,3);
	app(WLGB,&R->wlglen,WLG_CAP,&op,1); app(WLGB,&R->wlglen,WLG_CAP,&pl,4); app(WLGB,&R->wlglen,WLG_CAP,path,pl); app(WLGB,&R->wlglen,WLG_CAP,&off,8); app(WLGB,&R->wlglen,WLG_CAP,&n,8); app(WLGB,&R->wlglen,WLG_CAP,p,n);
}
static void probe(char kind, const char *name, u64 n) { // dedup
	if (n > 1000) n = 1000;
	u64 i=0; while (i < R->prblen) { u64 j=i; while (j<R->prblen && PRBB[j]!='\n') j++; if (j-i==n+1 && PRBB[i]==kind && !memcmp(PRBB+i+1,name,n)) return; i=j+1; }
	if (R->prblen + n + 2 > PRB_CAP) return;
	for (u64 q=0;q<n;q++) if (name[q]=='\n') return;
	app(PRBB,&R->prblen,PRB_CAP,&kind,1); app(PRBB,&R->prblen,PRB_CAP,name,n); app(PRBB,&R->prblen,PRB_CAP,"\n",1);
}

// ---------------------------------------------------------------- scenario
typedef struct { int cls; u64 from, count; int kind; i64 arg; int idx; } Fault;
enum { F_ERR, F_SHORT, F_KILL, F_DELAY };
static Fault faults[MAXFAULT]; static int nfaults;
typedef struct { u64 bytes; int err; int oneshot; int set; int partial; } Cap; static Cap caps[3];
static u64 kill_step; static int kill_sig; static i64 kill_part; static int have_kill;
typedef struct { u64 step; char op; char *path; u8 *data; u64 len; int done; } Edit; static Edit edits[256]; static int nedits;
static u64 rnd_state, lim_steps=100000, lim_mem=1ull<<30, lim_stack=8<<20, lim_cpu=20, oom_at, oom_count; static int have_oom;
static i64 clk_s, clk_ns, clk_tick; static u64 clk_queries; static i64 cjump_at=-1, cjump_d;
static long sim_pid=4242, sim_uid=1000; static int sim_cpus=4, win_r, win_c; static u64 heap_idx, stack_off; static u64 sched_seed; 
static char fdkind[3]={'p','p','p'}; static u8 *stdin_b; static u64 stdin_n;
static char *cwd="/"; static int cwderr; static int isolate_fs_open_err;

static u64 rnd(void) { u64 z=(rnd_state+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static u64 srnd(void) { u64 z=(sched_seed+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }

// private arena for the simulator itself
static u8 *pa, *pa_end;
static void *palloc(u64 n) { n=(n+15)&~15ull; if (pa+n>pa_end) die(E_HARNESS, 1); void *p=pa; pa+=n; return p; }

// ---------------------------------------------------------------- program heap
typedef struct { u64 size; u32 cls; u32 off; } Hdr; // 16 bytes before the block
static u8 boot_arena[1<<20] __attribute__((aligned(4096))); static u8 *hp, *hp_end; static void *freel[512];
static u32 cls_of(u64 n, u64 *csz) {
	if (n<16) n=16;
	if (n<=1024) { u32 c=(n+15)/16; *csz=c*16ull; return c; }
	int lg=63-__builtin_clzll(n-1); u64 base=1ull<<lg, q=base>>2; u64 k=(n-base+q-1)/q; // k 1..4
	*csz=base+k*q; return 64+(lg-9)*4+k;
}
static int alloc_gate(u64 n) {
	if (!active) return 1;
	u64 i=R->nalloc++;
	if (have_oom && i>=oom_at && i-oom_at<oom_count) { R->oomfired++; R->steps_after_fault=R->steps; return 0; }
	if (R->live+n > lim_mem || n > lim_mem) { R->peak = R->live + n; die(E_MEM, 0); }
	R->live+=n; if (R->live>R->peak) R->peak=R->live;
	return 1;
}
static void *h_alloc(u64 n, u64 al) {
	if (n > (1ull<<46)) { if (active) { R->peak=n; die(E_MEM,0);} return 0; }
	if (!alloc_gate(n)) { errno=ENOMEM; return 0; }
	if (!hp) { hp=boot_arena; hp_end=boot_arena+sizeof boot_arena; }
	u64 csz; u32 c;
	if (al<=16) {
		c=cls_of(n,&csz);
		if (freel[c]) { u8 *p=freel[c]; freel[c]=*(void**)p; Hdr*h=(Hdr*)(p-16); h->size=n; return p; }
		if (hp+csz+16>hp_end) { if (active) die(E_MEM,1); return 0; }
		u8*p=hp+16; hp+=csz+16; Hdr*h=(Hdr*)(p-16); h->size=n; h->cls=c; h->off=0; return p;
	}
	u64 tot=n+al+16; if (hp+tot>hp_end) { if (active) die(E_MEM,1); return 0; }
	u64 a=((u64)hp+16+al-1)&~(al-1); u8*p=(u8*)a; hp=(u8*)((a+n+15)&~15ull); Hdr*h=(Hdr*)(p-16); h->size=n; h->cls=511; h->off=1; return p;
}
void *malloc(size_t n) { return h_alloc(n,16); }
void free(void *p) { if (!p) return; Hdr*h=(Hdr*)((u8*)p-16); if (active) { if (R->live>=h->size) R->live-=h->size; else R->live=0; } if (h->cls==511) return; *(void**)p=freel[h->cls]; freel[h->cls]=p; }
void *calloc(size_t a, size_t b) { u64 n; if (__builtin_mul_overflow(a,b,&n)) { errno=ENOMEM; return 0; } void*p=h_alloc(n,16); if (p) memset(p,0,n); return p; }
void *realloc(void *p, size_t n) {
	if (!p) return malloc(n); Hdr*h=(Hdr*)((u8*)p-16); u64 csz; u32 c=cls_of(n,&csz);
	if (h->cls==c && n) { u64 old=h->size; if (n>old) { if (!alloc_gate(n-old)) { errno=ENOMEM; return 0; } } else if (active) R->live-=(R->live>=old-n?old-n:R->live); h->size=n; return p; }
	void*q=h_alloc(n,16); if (!q) return 0; memcpy(q,p,h->size<n?h->size:n); free(p); return q;
}
int posix_memalign(void **o, size_t al, size_t n) { void*p=h_alloc(n,al); if (!p) return ENOMEM; *o=p; return 0; }
void *memalign(size_t al, size_t n) { return h_alloc(n,al); }
void *aligned_alloc(size_t al, size_t n) { return h_alloc(n,al); }
void *valloc(size_t n) { return h_alloc(n,4096); }
size_t malloc_usable_size(void *p) { return p?((Hdr*)((u8*)p-16))->size:0; }

// ---------------------------------------------------------------- virtual files
typedef struct { char *path; char type; u8 *data; u64 len, cap; u32 ino; int openerr, staterr, searcherr; int dead, touched; i64 mtime; } Node;
static u64 attr_seed;
#define MAXNODE 512
static Node nodes[MAXNODE]; static int nnodes; static u32 next_ino=100;
static Node *node_new(char *path, char type, u8 *data, u64 len) { if (nnodes==MAXNODE) die(E_HARNESS,2); Node*n=&nodes[nnodes++]; memset(n,0,sizeof *n); n->path=path; n->type=type; n->data=data; n->len=n->cap=len; n->ino=next_ino++; n->mtime=clk_s; return n; }
static Node *node_find(const char *p) { for (int i=0;i<nnodes;i++) if (!nodes[i].dead && !strcmp(nodes[i].path,p)) return &nodes[i]; return 0; }
static char RP[8192]; // resolved path
// resolve: returns 0 and fills RP, *out = node or NULL (parent exists); or -errno
static int resolve(const char *base, const char *p, int follow, Node **out) {
	static char rest[8192]; static char tmp[8192]; u64 n;
	*out=0; if (!*p) return -ENOENT;
	if (strlen(p)>=4096) return -ENAMETOOLONG;
	int links=0; strcpy(rest,p);
	if (p[0]=='/') strcpy(RP,"/"); else strcpy(RP,base);
	for (;;) {
		char *r=rest; while (*r=='/') r++;
		if (!*r) { *out=node_find(RP); return *out?0:-ENOENT; }
		char *e=r; while (*e && *e!='/') e++;
		n=e-r; if (n>255) return -ENAMETOOLONG;
		Node *d=node_find(RP); if (!d) return -ENOENT; if (d->type!='d') return -ENOTDIR; if (d->searcherr) return -d->searcherr;
		int last; { char*q=e; while(*q=='/') q++; last=!*q; } int trailing = *e=='/';
		if (n==1&&r[0]=='.') { }
		else if (n==2&&r[0]=='.'&&r[1]=='.') { char*s=strrchr(RP,'/'); if (s==RP) RP[1]=0; else *s=0; }
		else {
			u64 l=strlen(RP); if (l+n+2>4096) return -ENAMETOOLONG;
			u64 keep=l; if (RP[l-1]!='/') RP[l++]='/'; memcpy(RP+l,r,n); RP[l+n]=0;
			Node *c=node_find(RP);
			if (c && c->type=='l' && (!last||follow||trailing)) {
				if (++links>40) return -ELOOP;
				strcpy(tmp,(char*)c->data); if (strlen(tmp)+strlen(e)+2>4096) return -ENAMETOOLONG; strcat(tmp,"/"); strcat(tmp,e);
				if (last && !trailing) tmp[strlen((char*)c->data)]=0;
				memmove(rest,tmp,strlen(tmp)+1); RP[keep]=0; if (!keep) strcpy(RP,"/"); if (c->data[0]=='/') strcpy(RP,"/"); continue;
			}
			if (!c) { if (last) { *out=0; return 0; } return -ENOENT; }
			if (last) { if (trailing && c->type!='d') return -ENOTDIR; *out=c; return 0; }
		}
		memmove(rest,e,strlen(e)+1);
	}
}
static Node *dev_node(const char *p) { return node_find(p); }

typedef struct { char kind; Node *n; u64 off; int flags; int used; u64 dirpos; } FD; // kind: 0 stdin 1 stdout 2 stderr f file d dir N null
#define MAXFD 256
static FD fds[MAXFD];
static int fd_new(void) { for (int i=0;i<MAXFD;i++) if (!fds[i].used) return i; return -EMFILE; }
static FD *fd_get(long f) { return f>=0&&f<MAXFD&&fds[f].used?&fds[f]:0; }

// ---------------------------------------------------------------- faults
static u64 cur_step; static int hit_idx; // trace annotation
static char shp;
static void clk_adv(i64 d);
static Fault *fault_at(int cls) {
	u64 k=R->counts[cls]++; // occurrence index
	Fault*hit=0;
	for (int i=0;i<nfaults;i++) { Fault*f=&faults[i]; if (f->cls==cls && k>=f->from && k-f->from<f->count) { if (f->kind==F_DELAY) { R->fired[f->idx]++; clk_adv(f->arg*1000000); } else if (!hit) hit=f; } }
	return hit;
}
static void fire(Fault *f) { R->fired[f->idx]++; hit_idx=f->idx; R->steps_after_fault=R->steps; }
static void raise_real(int sig) { RAW(SYS_tgkill, RAW(SYS_getpid,0,0,0,0,0,0), RAW(SYS_gettid,0,0,0,0,0,0), sig,0,0,0); }

static long do_write_obj(FD *f, int obj, const u8 *p, u64 n) { // obj 1/2: append
	u8 *b = obj==1?OUTB:ERRB; u64 *l = obj==1?&R->outlen:&R->errlen; u64 cap = obj==1?OUT_CAP:ERR_CAP;
	if (*l+n>cap) die(E_OUTPUT,obj);
	memcpy(b+*l,p,n); *l+=n; (void)f; return n;
}
static void file_write(Node *n, u64 off, const u8 *p, u64 k) {
	if (off+k>n->cap) { u64 c=(off+k)*2+64; u8*d=palloc(c); memcpy(d,n->data,n->len); n->data=d; n->cap=c; }
	if (off>n->len) memset(n->data+n->len,0,off-n->len);
	memcpy(n->data+off,p,k); wlog('w',n->path,off,p,k); if (off+k>n->len) n->len=off+k; n->touched=1; n->mtime=clk_s;
}
static i64 pending_part=-1; // partial write before kill
static long sys_write(long fd, const u8 *p, u64 n, i64 pos) {
	FD*f=fd_get(fd); if (!f) return -EBADF;
	int obj = f->kind==1?1:f->kind==2?2:0; int cls = obj==1?C_WOUT:obj==2?C_WERR:C_WFILE;
	if (f->kind==0) { effect("writestdin",0,n); return -EBADF; }
	if (f->kind=='d') return -EBADF;
	if (f->kind=='N') return n;
	if (f->kind=='f' && (f->flags&O_ACCMODE)==O_RDONLY) return -EBADF;
	Fault*x=fault_at(cls); u64 m=n;
	if (pending_part>=0) { if ((u64)pending_part<m) m=pending_part; }
	else if (x) {
		fire(x);
		if (x->kind==F_ERR) { if (x->arg==EPIPE) raise_real(SIGPIPE); return -x->arg; }
		if (x->kind==F_SHORT && m>1) { u64 k=x->arg; if (k<1) k=1; if (k>=m) k=1+k%(m-1); m=k; }
	}
	if (obj) {
		Cap*c=&caps[obj];
		if (c->set) {
			u64 have = obj==1?R->outlen:R->errlen;
			if (have+m>c->bytes) {
				u64 room = c->bytes>have?c->bytes-have:0;
				if (room && c->partial) m=room;
				else { R->capfired[obj]++; R->steps_after_fault=R->steps; hit_idx=1000+obj; if (c->oneshot) c->set=0; if (c->err==EPIPE) raise_real(SIGPIPE); return -c->err; }
			}
		}
		return do_write_obj(f,obj,p,m);
	}
	Node*nd=f->n; u64 off = pos>=0?(u64)pos:(f->flags&O_APPEND)?nd->len:f->off;
	file_write(nd,off,p,m); if (pos<0) f->off=off+m; effect("write",nd->path,m); return m;
}
static long sys_read(long fd, u8 *p, u64 n, i64 pos) {
	FD*f=fd_get(fd); if (!f) return -EBADF;
	if (f->kind==1||f->kind==2) { effect("stream-read",0,f->kind); return fdkind[(int)f->kind]=='t'?0:-EBADF; }
	if (f->kind=='d') return -EISDIR; if (f->kind=='N') return 0;
	if (f->kind=='f' && (f->flags&O_ACCMODE)==O_WRONLY) return -EBADF;
	int cls=f->kind==0?C_RSTDIN:C_RFILE; Fault*x=fault_at(cls);
	u8*src; u64 len,off;
	if (f->kind==0) { src=stdin_b; len=stdin_n; effect("readstdin",0,n); } else { src=f->n->data; len=f->n->len; }
	off = pos>=0?(u64)pos:f->off; u64 m = off<len?len-off:0; if (m>n) m=n;
	if (x) { if (x->kind==F_ERR) { fire(x); return -x->arg; } if (x->kind==F_SHORT && m>1) { fire(x); u64 k=x->arg; if (k<1) k=1; if (k>=m) k=1+k%(m-1); m=k; } }
	memcpy(p,src+off,m); if (pos<0) f->off=off+m; return m;
}
static u64 attr_hash(const char *p, u64 k) { u64 h=fnv(attr_seed*0x9E3779B97F4A7C15ull+k,p,strlen(p)); h^=h>>29; h*=0xBF58476D1CE4E5B9ull; return h>>11; }
static u32 perm_of(Node*n, u32 plain) { static const u32 m[]={0644,0600,0664,0666,0444,0777,0400,0640}; static const u32 dm[]={0755,0777,01777,0700,0775,0555,02775,0755}; if (!attr_seed) return plain; u64 h=attr_hash(n->path,1); return n->type=='d'?dm[h&7]:m[h&7]; }
static u32 mode_of(Node*n) { switch(n->type) { case 'd': return S_IFDIR|perm_of(n,0755); case 'f': return S_IFREG|perm_of(n,0644); case 'l': return S_IFLNK|0777; case 'p': return S_IFIFO|0644; case 's': return S_IFSOCK|0755; case 'b': return S_IFBLK|0660; default: return S_IFCHR|0666; } }
// owner, file system, number of names and times of a node: ordinary, or drawn from the attribute seed
typedef struct { u32 uid, gid, dev, nlink; i64 mt; } Attr;
static Attr attr_of(Node*n) { Attr a={sim_uid,sim_uid,1,n&&n->type=='d'?2:1,n?n->mtime:clk_s}; if (attr_seed && n) { u64 h=attr_hash(n->path,2); static const u32 o[]={0,1,65534,1001}; if (h&1) a.uid=o[h>>1&3]; if (h&8) a.gid=o[h>>4&3]; a.dev=1+(h>>6)%3; a.nlink+=(h>>8)%4==0?3:0; a.mt=(i64)(h>>12)%4000000000ll; } return a; }
static void fill_stat(struct stat *s, u32 mode, u64 size, u32 ino, Attr a) { memset(s,0,sizeof *s); s->st_mode=mode; s->st_size=size; s->st_ino=ino; s->st_nlink=a.nlink; s->st_dev=a.dev; s->st_uid=a.uid; s->st_gid=a.gid; s->st_blksize=4096; s->st_blocks=(size+511)/512; s->st_mtim.tv_sec=s->st_atim.tv_sec=s->st_ctim.tv_sec=a.mt; }
static void fill_statx(struct statx *s, u32 mode, u64 size, u32 ino, Attr a) { memset(s,0,sizeof *s); s->stx_mask=STATX_BASIC_STATS; s->stx_mode=mode; s->stx_size=size; s->stx_ino=ino; s->stx_nlink=a.nlink; s->stx_dev_minor=a.dev; s->stx_uid=a.uid; s->stx_gid=a.gid; s->stx_blksize=4096; s->stx_blocks=(size+511)/512; s->stx_mtime.tv_sec=s->stx_atime.tv_sec=s->stx_ctime.tv_sec=a.mt; }
static void fd_attr(FD*f, u32*mode, u64*size, u32*ino, Attr*mt) {
	*mt=attr_of(0); *size=0; *ino=1;
	if (f->kind<=2) { char k=fdkind[(int)f->kind]; *mode = k=='t'?S_IFCHR|0620:k=='f'?S_IFREG|0644:k=='n'?S_IFCHR|0666:S_IFIFO|0600; *ino=3+f->kind; }
	else if (f->kind=='N') *mode=S_IFCHR|0666; else { *mode=mode_of(f->n); *size=f->n->type=='l'?strlen((char*)f->n->data):f->n->len; *ino=f->n->ino; *mt=attr_of(f->n); }
}
static const char *dirbase(long dfd, int *err) {
	*err=0; if ((int)dfd==AT_FDCWD) { if (cwderr) { *err=-ENOENT; } return cwd; }
	FD*f=fd_get(dfd); if (!f) { *err=-EBADF; return 0; } if (f->kind!='d') { *err=-ENOTDIR; return 0; } return f->n->path;
}
static const char *tr_path; 
static int lookup(long dfd, const char *p, int follow, Node **n) {
	int e=0; const char*b="/"; *n=0; tr_path=p;
	if (p[0]!='/') { b=dirbase(dfd,&e); if (e) return e; }
	int r=resolve(b,p,follow,n); tr_path=(r==0)?RP:p;
	if (!*n) probe('F',(r==0)?RP:p,strlen((r==0)?RP:p));
	return r;
}
static long sys_open(long dfd, const char *p, int fl, int mode) {
	(void)mode; Fault*x=fault_at(C_OPEN); tr_path=p; if (x && x->kind==F_ERR && !(x->arg==EINTR && !strcmp(p,"/dev/null"))) { fire(x); return -x->arg; } // opening the null device never waits
	if (!strcmp(p,"/dev/null")) { int i=fd_new(); if (i<0) return i; fds[i]=(FD){.kind='N',.used=1,.flags=fl}; return i; }
	Node*n; int r=lookup(dfd,p,!(fl&O_NOFOLLOW),&n); if (r) return r;
	int acc=fl&O_ACCMODE; int wr = acc!=O_RDONLY || (fl&(O_TRUNC|O_CREAT));
	if ((fl&O_TMPFILE)==O_TMPFILE) { effect("tmpfile",RP,fl); n=node_new(strcpy(palloc(64),"/<tmpfile>"),'f',(u8*)"",0); n->dead=1; int i=fd_new(); if (i<0) return i; fds[i]=(FD){.kind='f',.n=n,.used=1,.flags=fl}; return i; }
	if (!n) {
		if (!(fl&O_CREAT)) return -ENOENT;
		char*c=palloc(strlen(RP)+1); strcpy(c,RP); n=node_new(c,'f',(u8*)"",0); n->cap=0; n->touched=1; effect("create",c,fl); wlog('c',c,0,"",0);
	} else {
		if ((fl&O_CREAT)&&(fl&O_EXCL)) return -EEXIST;
		if (n->openerr) return -n->openerr;
		if (n->type=='l') return -ELOOP;
		if (n->type=='s') return -ENXIO;
		if (n->type=='d') { if (wr) return -EISDIR; int i=fd_new(); if (i<0) return i; fds[i]=(FD){.kind='d',.n=n,.used=1,.flags=fl}; probe('D',RP,strlen(RP)); return i; }
		if ((fl&O_DIRECTORY)) return -ENOTDIR;
		if (wr && acc!=O_RDONLY) effect("openw",n->path,fl);
		if ((fl&O_TRUNC) && acc!=O_RDONLY) { if (n->len) effect("truncate",n->path,0); wlog('c',n->path,0,"",0); n->data=(u8*)""; n->len=n->cap=0; n->touched=1; }
	}
	if (n->type=='p' && acc==O_RDONLY) { effect("blockfifo",n->path,0); }
	probe('R',RP,strlen(RP));
	int i=fd_new(); if (i<0) return i; fds[i]=(FD){.kind='f',.n=n,.used=1,.flags=fl}; return i;
}

// ---------------------------------------------------------------- clock
static void clk_adv(i64 ns) { R->simtime_ns+=ns; clk_ns+=ns; clk_s+=clk_ns/1000000000; clk_ns%=1000000000; if (clk_ns<0) { clk_ns+=1000000000; clk_s--; } }
static void clk_query(void) { clk_adv(clk_tick); if (cjump_at>=0 && clk_queries==(u64)cjump_at) clk_s+=cjump_d; clk_queries++; }
#define REAL(name) ({ static __typeof__(&name) f; if(!f) f=(__typeof__(&name))dlsym(RTLD_NEXT,#name); f; })
int clock_gettime(clockid_t c, struct timespec *t) {
	if (!active) return RAW(SYS_clock_gettime,c,t,0,0,0,0);
	probe('T',"clock",5); clk_query(); if (c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE||c==CLOCK_TAI) { t->tv_sec=clk_s; t->tv_nsec=clk_ns; } else { t->tv_sec=1000+R->simtime_ns/1000000000; t->tv_nsec=R->simtime_ns%1000000000; } return 0;
}
int clock_getres(clockid_t c, struct timespec *t) { (void)c; if (t) { t->tv_sec=0; t->tv_nsec=1; } return 0; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; struct timespec s; clock_gettime(0,&s); { t->tv_sec=s.tv_sec; t->tv_usec=s.tv_nsec/1000; } return 0; }
time_t time(time_t *o) { struct timespec s; clock_gettime(0,&s); if (o) *o=s.tv_sec; return s.tv_sec; }
extern char **environ;
char *getenv(const char *name) {
	u64 n=strlen(name); if (active) probe('E',name,n);
	if (!environ) return 0; for (char**e=environ;*e;e++) if (!strncmp(*e,name,n)&&(*e)[n]=='=') return *e+n+1; return 0;
}
char *secure_getenv(const char *n) { return getenv(n); }

// ---------------------------------------------------------------- threads (baton)
#define MAXT 2048
enum { T_FREE, T_NEW, T_RUN, T_BLOCK, T_DONE };
typedef struct { int state; u32 baton; u64 faddr; u64 deadline; pthread_t pt; void*(*fn)(void*); void*arg; int woken; } Thr;
static Thr thr[MAXT]; static int nthr=1; static __thread int tself __attribute__((tls_model("initial-exec"))); static int passthrough_futex;
static volatile u32 arrived;
static volatile long leaving; // kernel id of a thread that has given the baton away for good
static void baton_wait(int me) { while (!__atomic_load_n(&thr[me].baton,__ATOMIC_ACQUIRE)) RAW(SYS_futex,&thr[me].baton,FUTEX_WAIT,0,0,0,0); __atomic_store_n(&thr[me].baton,0,__ATOMIC_RELEASE);
	// its stack may be reused from here on or not, depending on how far its real exit has come: let it be over
	if (leaving) { long p=RAW(SYS_getpid,0,0,0,0,0,0); while (RAW(SYS_tgkill,p,leaving,0,0,0,0)==0) RAW(SYS_sched_yield,0,0,0,0,0,0); leaving=0; } }
static void baton_give(int t) { __atomic_store_n(&thr[t].baton,1,__ATOMIC_RELEASE); RAW(SYS_futex,&thr[t].baton,FUTEX_WAKE,1,0,0,0); }
// choose the next thread; caller holds the baton; returns when caller may run again (unless done)
static void sched(int me) {
	if (nthr==1) { if (thr[0].state==T_BLOCK) { if (thr[0].deadline!=~0ull) { R->slept+=thr[0].deadline-R->simtime_ns; clk_adv(thr[0].deadline-R->simtime_ns); thr[0].state=T_RUN; thr[0].woken=0; return; } die(E_DEADLOCK,0); } return; }
	int c[MAXT], n=0; for (int i=0;i<nthr;i++) if (thr[i].state==T_RUN) c[n++]=i;
	if (!n) { // jump the clock to the earliest deadline
		int b=-1; for (int i=0;i<nthr;i++) if (thr[i].state==T_BLOCK && thr[i].deadline!=~0ull && (b<0||thr[i].deadline<thr[b].deadline)) b=i;
		if (b<0) die(E_DEADLOCK,0);
		if (thr[b].deadline>R->simtime_ns) { if (b==0) R->slept+=thr[b].deadline-R->simtime_ns; } if (thr[b].deadline>R->simtime_ns) clk_adv(thr[b].deadline-R->simtime_ns); thr[b].state=T_RUN; thr[b].woken=0; c[n++]=b;
	}
	int t=c[srnd()%n]; if (t==me) return;
	R->switches++; LN=0; l_s("switch "); l_n(me); l_s("->"); l_n(t); trace_flush();
	baton_give(t); if (thr[me].state!=T_DONE) baton_wait(me);
}
static void *thr_main(void *a) {
	int me=(int)(intptr_t)a; tself=me;
	// park until first scheduled
	__atomic_store_n(&arrived,1,__ATOMIC_RELEASE); RAW(SYS_futex,&arrived,FUTEX_WAKE,1,0,0,0);
	baton_wait(me);
	void *r=thr[me].fn(thr[me].arg);
	return r;
}
static int in_create;
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void*), void *arg) {
	int (*real)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)=dlsym(RTLD_NEXT,"pthread_create");
	if (!active) return real(t,at,fn,arg);
	if (nthr==MAXT) return EAGAIN;
	R->nthreads++; int id=nthr; thr[id]=(Thr){.state=T_NEW,.fn=fn,.arg=arg,.deadline=~0ull}; arrived=0; in_create=1;
	nthr++; int r=real(t,at,thr_main,(void*)(intptr_t)id); 
	if (r) { nthr--; in_create=0; return r; }
	while (!__atomic_load_n(&arrived,__ATOMIC_ACQUIRE)) RAW(SYS_futex,&arrived,FUTEX_WAIT,0,0,0,0);
	in_create=0; thr[id].pt=*t; thr[id].state=T_RUN; LN=0; l_s("thread "); l_n(id); trace_flush(); sched(tself); return 0;
}
int pthread_join(pthread_t t, void **r) {
	int (*real)(pthread_t,void**)=dlsym(RTLD_NEXT,"pthread_join");
	if (active) for (int i=nthr-1;i>0;i--) if (thr[i].pt==t && thr[i].state!=T_FREE) { // the newest: addresses are used again
		while (thr[i].state!=T_DONE) { thr[tself].state=T_BLOCK; thr[tself].faddr=(u64)&thr[i]; thr[tself].deadline=~0ull; sched(tself); }
		thr[i].pt=0; passthrough_futex=1; int x=real(t,r); passthrough_futex=0; return x;
	}
	return real(t,r);
}
static void wake_addr(u64 a, int n, long *cnt) { for (int i=0;i<nthr&&n>0;i++) if (thr[i].state==T_BLOCK&&thr[i].faddr==a) { thr[i].state=T_RUN; thr[i].woken=1; n--; (*cnt)++; } }

// ---------------------------------------------------------------- syscall dispatch
static void apply_edits(u64 step) {
	for (int i=0;i<nedits;i++) { Edit*e=&edits[i]; if (e->done||e->step>step) continue; e->done=1; R->editsfired++;
		Node*n=node_find(e->path);
		LN=0; l_s("edit "); char o[3]={e->op,' ',0}; l_s(o); l_s(e->path); trace_flush();
		switch (e->op) {
		case 'r': case 'c': if (n) n->dead=1; n=node_new(e->path,'f',e->data,e->len); break; // atomic replacement: new inode
		case 'w': if (n) { n->data=e->data; n->len=n->cap=e->len; } break;                       // in place
		case 'u': if (n) n->dead=1; break;
		case 'm': if (n) n->dead=1; node_new(e->path,'d',0,0); break;
		}
	}
}
static void add_path_effect(const char *w, long dfd, const char *p) { Node*n; int r=lookup(dfd,p,0,&n); effect(w, r?p:RP, 0); }
static long dispatch(long nr, long a, long b, long c, long d, long e, long f, ucontext_t *uc) {
	switch (nr) {
	case SYS_write: return sys_write(a,(u8*)b,c,-1);
	case SYS_pwrite64: return sys_write(a,(u8*)b,c,d);
	case SYS_writev: { struct iovec*v=(void*)b; long tot=0; // a short or failing element ends the transfer
		// one kernel call = one fault decision: gather into a scratch buffer
		u64 n=0; for (int i=0;i<c;i++) n+=v[i].iov_len; if (n<=65536) { static u8 g[65536]; u64 k=0; for (int i=0;i<c;i++) { memcpy(g+k,v[i].iov_base,v[i].iov_len); k+=v[i].iov_len; } return sys_write(a,g,n,-1); }
		for (int i=0;i<c;i++) { long r=sys_write(a,v[i].iov_base,v[i].iov_len,-1); if (r<0) return tot?tot:r; tot+=r; if ((u64)r<v[i].iov_len) break; } return tot; }
	case SYS_read: return sys_read(a,(u8*)b,c,-1);
	case SYS_pread64: return sys_read(a,(u8*)b,c,d);
	case SYS_readv: { struct iovec*v=(void*)b; long tot=0; for (int i=0;i<c;i++) { if (!v[i].iov_len) continue; long r=sys_read(a,v[i].iov_base,v[i].iov_len,-1); if (r<0) return tot?tot:r; tot+=r; if ((u64)r<v[i].iov_len) break; } return tot; }
	case SYS_open: return sys_open(AT_FDCWD,(char*)a,b,c);
	case SYS_openat: return sys_open(a,(char*)b,c,d);
	case SYS_creat: return sys_open(AT_FDCWD,(char*)a,O_CREAT|O_WRONLY|O_TRUNC,b);
	case SYS_close: { FD*x=fd_get(a); if (!x) return -EBADF; Fault*q=fault_at(C_CLOSE); x->used=0; if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } return 0; }
	case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: {
		long dfd=AT_FDCWD; const char*p; int fl=0; void*buf;
		if (nr==SYS_stat) { p=(char*)a; buf=(void*)b; } else if (nr==SYS_lstat) { p=(char*)a; buf=(void*)b; fl=AT_SYMLINK_NOFOLLOW; }
		else if (nr==SYS_newfstatat) { dfd=a; p=(char*)b; buf=(void*)c; fl=d; } else { dfd=a; p=(char*)b; fl=c; buf=(void*)e; }
		u32 mode,ino; u64 size; Attr mt; if (!buf) return -EFAULT; if (!p && !(fl&AT_EMPTY_PATH)) return -EFAULT;
		if ((!p||!*p) && (fl&AT_EMPTY_PATH)) {
			FD*x=fd_get(dfd); if (!x) return -EBADF; Fault*q=fault_at(C_FSTAT); if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } fd_attr(x,&mode,&size,&ino,&mt);
		} else {
			Fault*q=fault_at(C_STAT); tr_path=p; if (q&&q->kind==F_ERR) { fire(q); return -q->arg; }
			Node*n; int r=lookup(dfd,p,!(fl&AT_SYMLINK_NOFOLLOW),&n); if (r) return r; if (!n) return -ENOENT; if (n->staterr) return -n->staterr;
			mode=mode_of(n); size=n->type=='l'?strlen((char*)n->data):n->type=='f'?n->len:0; ino=n->ino; mt=attr_of(n);
		}
		if (nr==SYS_statx) fill_statx(buf,mode,size,ino,mt); else fill_stat(buf,mode,size,ino,mt); return 0; }
	case SYS_fstat: { FD*x=fd_get(a); if (!x) return -EBADF; Fault*q=fault_at(C_FSTAT); if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } u32 mode,ino; u64 size; Attr mt; fd_attr(x,&mode,&size,&ino,&mt); fill_stat((void*)b,mode,size,ino,mt); return 0; }
	case SYS_access: case SYS_faccessat: case SYS_faccessat2: { const char*p=nr==SYS_access?(char*)a:(char*)b; Fault*q=fault_at(C_STAT); tr_path=p; if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } Node*n; int r=lookup(nr==SYS_access?AT_FDCWD:a,p,1,&n); if (r) return r; if (!n) return -ENOENT; if (n->openerr) return -EACCES; return 0; }
	case SYS_readlink: case SYS_readlinkat: { const char*p=nr==SYS_readlink?(char*)a:(char*)b; char*buf=(char*)(nr==SYS_readlink?b:c); u64 bn=nr==SYS_readlink?c:d; Fault*q=fault_at(C_READLINK); tr_path=p; if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } Node*n; int r=lookup(nr==SYS_readlink?AT_FDCWD:a,p,0,&n); if (r) return r; if (!n) return -ENOENT; if (n->type!='l') return -EINVAL; u64 k=strlen((char*)n->data); if (k>bn) k=bn; memcpy(buf,n->data,k); return k; }
	case SYS_getcwd: { Fault*q=fault_at(C_GETCWD); if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } if (cwderr) return -cwderr; u64 k=strlen(cwd)+1; if (k>(u64)b) return -ERANGE; memcpy((char*)a,cwd,k); return k; }
	case SYS_chdir: { Node*n; int r=lookup(AT_FDCWD,(char*)a,1,&n); if (r) return r; if (!n) return -ENOENT; if (n->type!='d') return -ENOTDIR; cwd=n->path; return 0; }
	case SYS_fchdir: { FD*x=fd_get(a); if (!x) return -EBADF; if (x->kind!='d') return -ENOTDIR; cwd=x->n->path; return 0; }
	case SYS_lseek: { FD*x=fd_get(a); if (!x) return -EBADF; if (x->kind<=2 && fdkind[(int)x->kind]=='f') { i64 at=x->kind==0?(i64)x->off:x->kind==1?(i64)R->outlen:(i64)R->errlen; if (b==0&&c!=SEEK_SET) return at; effect("stream-seek",0,x->kind); if (x->kind==0) x->off=b; return b; } if (x->kind!='f'&&x->kind!='d') return -ESPIPE; i64 base=c==SEEK_SET?0:c==SEEK_CUR?(i64)x->off:(i64)x->n->len; if (base+b<0) return -EINVAL; x->off=base+b; if (x->kind=='d') x->dirpos=x->off; return x->off; }
	case SYS_getdents64: { FD*x=fd_get(a); if (!x) return -EBADF; if (x->kind!='d') return -ENOTDIR; u8*o=(u8*)b; u64 k=0, left=c; u64 pl=strlen(x->n->path); int root=pl==1; u64 idx=0;
		for (int i=0;i<nnodes;i++) { Node*n=&nodes[i]; if (n->dead) continue; if (strncmp(n->path,x->n->path,pl)) continue; const char*nm=n->path+pl; if (!root) { if (*nm!='/') continue; nm++; } if (!*nm||strchr(nm,'/')) continue;
			if (idx++<x->dirpos) continue; u64 l=strlen(nm), rl=(19+l+1+7)&~7ull; if (rl>left) break; *(u64*)(o+k)=n->ino; *(i64*)(o+k+8)=idx; *(uint16_t*)(o+k+16)=rl; o[k+18]=n->type=='d'?4:n->type=='l'?10:n->type=='f'?8:0; memcpy(o+k+19,nm,l+1); k+=rl; left-=rl; x->dirpos=idx; } return k; }
	case SYS_fcntl: { FD*x=fd_get(a); if (!x) return -EBADF; switch(b) { case F_GETFD: return 0; case F_SETFD: return 0; case F_GETFL: return x->kind<=2?O_RDWR|x->flags:x->flags; case F_SETFL: if (x->kind<=2) { int m=O_NONBLOCK|O_APPEND|O_ASYNC|O_DIRECT; if ((x->flags^(int)c)&m) { effect("stream-flags",0,x->kind); x->flags=(int)c&m; } } return 0; case F_SETLK: case F_SETLKW: case 37: case 38: case F_SETOWN: case 10: case 15: case 1024: case 1031: if (x->kind<=2) effect("stream-lock",0,x->kind); return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { for (int i=c;i<MAXFD;i++) if (!fds[i].used) { fds[i]=*x; return i; } return -EMFILE; } default: return 0; } }
	case SYS_dup: { FD*x=fd_get(a); if (!x) return -EBADF; int i=fd_new(); if (i<0) return i; fds[i]=*x; return i; }
	case SYS_dup2: case SYS_dup3: { FD*x=fd_get(a); if (!x) return -EBADF; if (b<0||b>=MAXFD) return -EBADF; fds[b]=*x; return b; }
	case SYS_ioctl: { FD*x=fd_get(a); Fault*q=fault_at(C_IOCTL); if (!x) return -EBADF; if (q&&q->kind==F_ERR) { fire(q); return -q->arg; }
		int t = x->kind<=2 && fdkind[(int)x->kind]=='t';
		switch ((u32)b) { case 0x5401: if (!t) return -ENOTTY; if (c) memset((void*)c,0,36); return 0; case 0x5413: if (!t) return -ENOTTY; { struct winsize*w=(void*)c; memset(w,0,sizeof *w); w->ws_row=win_r; w->ws_col=win_c; } return 0; case 0x5402: case 0x5403: case 0x5404: case 0x5412: case 0x5414: case 0x540e: case 0x5423: effect("terminal",0,b); return t?0:-ENOTTY; case 0x5421: case 0x5452: if (x->kind<=2&&c&&*(int*)c) effect("stream-flags",0,x->kind); return 0; default: return -ENOTTY; } }
	case SYS_poll: case SYS_ppoll: { struct pollfd*p=(void*)a; Fault*q=fault_at(C_POLL); if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } int k=0; for (int i=0;i<b;i++) { p[i].revents=0; if (p[i].fd<0) continue; FD*x=fd_get(p[i].fd); if (x&&x->kind==0&&(p[i].events&POLLIN)) effect("stream-wait",0,0); if (!x) p[i].revents=POLLNVAL; else p[i].revents=p[i].events&(POLLIN|POLLOUT); if (p[i].revents) k++; } return k; }
	case SYS_getrandom: { Fault*q=fault_at(C_RANDOM); if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } u8*o=(u8*)a; u64 n=b; if (q&&q->kind==F_SHORT&&n>1) { fire(q); n=1+q->arg%(n-1); } for (u64 i=0;i<n;i++) o[i]=rnd()>>24; probe('T',"random",6); return n; }
	case SYS_mmap: { Fault*q=fault_at(C_MMAP); if (q&&q->kind==F_ERR) { fire(q); return -q->arg; } R->mapped+=b; if (R->mapped>lim_mem+(256u<<20)) die(E_MEM,2);
		if (d&MAP_ANONYMOUS) return RAW(SYS_mmap,a,b,c,d,-1,0);
		FD*x=fd_get(e); if (!x) return -EBADF; if (x->kind!='f') return -ENODEV; long m=RAW(SYS_mmap,a,b,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|(d&MAP_FIXED),-1,0); if (m<0&&m>-4096) return m; u64 off=f; if (off<x->n->len) { u64 k=x->n->len-off; if (k>(u64)b) k=b; memcpy((void*)m,x->n->data+off,k); } if ((d&MAP_SHARED)&&(c&PROT_WRITE)) effect("mmapw",x->n->path,b); RAW(SYS_mprotect,m,b,c,0,0,0); return m; }
	case SYS_mremap: return RAW(nr,a,b,c,d,e,f);
	case SYS_brk: return -ENOMEM;
	case SYS_sched_getaffinity: { u8*m=(u8*)c; if (b<8) return -EINVAL; memset(m,0,8); for (int i=0;i<sim_cpus;i++) m[i/8]|=1<<(i%8); return 8; }
	case SYS_sched_setaffinity: return 0;
	case SYS_sched_yield: return 0;
	case SYS_getpid: probe('T',"pid",3); return sim_pid; case SYS_gettid: return sim_pid+tself; case SYS_getppid: probe('T',"pid",3); return sim_pid-1; case SYS_getpgrp: case SYS_getpgid: case SYS_getsid: return sim_pid-1;
	case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: probe('T',"uid",3); return sim_uid;
	case SYS_uname: { struct utsname*u=(void*)a; memset(u,0,sizeof *u); strcpy(u->sysname,"Linux"); strcpy(u->nodename,"sim"); u->nodename[3]='0'+sim_pid%10; strcpy(u->release,"6.1.0-sim"); strcpy(u->version,"#1"); strcpy(u->machine,"x86_64"); probe('T',"uname",5); return 0; }
	case SYS_sysinfo: { struct sysinfo*s=(void*)a; memset(s,0,sizeof *s); s->uptime=1000+sim_pid; s->totalram=8u<<20; s->freeram=4u<<20; s->mem_unit=1024; s->procs=10; return 0; }
	case SYS_getrusage: memset((void*)b,0,sizeof(struct rusage)); return 0;
	case SYS_times: return sim_pid*100;
	case SYS_clock_gettime: return clock_gettime(a,(void*)b);
	case SYS_gettimeofday: return gettimeofday((void*)a,0);
	case SYS_time: return time((void*)a);
	case SYS_nanosleep: case SYS_clock_nanosleep: { struct timespec*t=(void*)(nr==SYS_nanosleep?a:c); i64 ns=t->tv_sec*1000000000ll+t->tv_nsec; if (nr==SYS_clock_nanosleep&&(b&1)) ns-= (a==0?clk_s*1000000000ll+clk_ns:(i64)(1000000000000ll+R->simtime_ns)); if (ns<0) ns=0; R->slept+=ns; if (nthr==1) clk_adv(ns); else { thr[tself].state=T_BLOCK; thr[tself].faddr=0; thr[tself].deadline=R->simtime_ns+ns; } return 0; }
	case SYS_prlimit64: { if (d) { struct rlimit*r=(void*)d; r->rlim_cur=b==RLIMIT_STACK?lim_stack:RLIM_INFINITY; r->rlim_max=RLIM_INFINITY; if (b==RLIMIT_NOFILE) r->rlim_cur=r->rlim_max=1024; } return 0; }
	case SYS_getrlimit: { struct rlimit*r=(void*)b; r->rlim_cur=a==RLIMIT_STACK?lim_stack:RLIM_INFINITY; r->rlim_max=RLIM_INFINITY; return 0; }
	case SYS_setrlimit: return 0;
	case SYS_set_robust_list: case SYS_set_tid_address: return nr==SYS_set_tid_address?sim_pid+tself:0;
	case SYS_rseq: return -ENOSYS; case SYS_prctl: return 0; case SYS_membarrier: return -ENOSYS;
	case SYS_rt_sigprocmask: { u64*set=(u64*)b,*old=(u64*)c; u64 m; memcpy(&m,&uc->uc_sigmask,8); if (old) *old=m; if (set) { if (a==SIG_BLOCK) m|=*set; else if (a==SIG_UNBLOCK) m&=~*set; else m=*set; m&=~(1ull<<(SIGSYS-1)); memcpy(&uc->uc_sigmask,&m,8); } return 0; }
	case SYS_rt_sigaction: if (a==SIGSYS) return 0; return RAW(nr,a,b,c,d,0,0);
	case SYS_futex: {
		int op=b&FUTEX_CMD_MASK; u32*ua=(u32*)a;
		if (passthrough_futex) return RAW(nr,a,b,c,d,e,f);
		if (op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET) { if (*(volatile u32*)ua!=(u32)c) return -EAGAIN; Thr*t=&thr[tself]; t->state=T_BLOCK; t->faddr=a; t->woken=0; t->deadline=~0ull;
			if (d) { struct timespec*ts=(void*)d; i64 ns=ts->tv_sec*1000000000ll+ts->tv_nsec; if (op==FUTEX_WAIT) t->deadline=R->simtime_ns+ns; else { i64 now=(b&FUTEX_CLOCK_REALTIME)?clk_s*1000000000ll+clk_ns:(i64)(1000000000000ll+R->simtime_ns); i64 q=ns-now; if (q<0) q=0; t->deadline=R->simtime_ns+q; } }
			sched(tself); return t->woken?0:(d?-ETIMEDOUT:0); }
		if (op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET) { long n=0; wake_addr(a,(int)c,&n); return n; }
		return -ENOSYS; }
	case SYS_exit: { int me=tself; if (nthr>1) { thr[me].state=T_DONE; long n; wake_addr((u64)&thr[me],100,&n); if (me!=0) { LN=0; l_s("texit "); l_n(me); trace_flush(); leaving=RAW(SYS_gettid,0,0,0,0,0,0); sched(me); for(;;) RAW(SYS_exit,a,0,0,0,0,0); } else { sched(me); for(;;) RAW(SYS_exit,a,0,0,0,0,0); } } die(E_EXIT,a&255); return 0; }
	case SYS_exit_group: LN=0; l_s("exit "); l_n(a&255); trace_flush(); die(E_EXIT,a&255); return 0;
	case SYS_tgkill: case SYS_tkill: { int sig=nr==SYS_tgkill?c:b; raise_real(sig); return 0; }
	case SYS_kill: if (a==sim_pid||a==0) { raise_real(b); return 0; } effect("kill",0,a); return -ESRCH;
	case SYS_fork: case SYS_vfork: effect("fork",0,nr); return -EAGAIN;
	case SYS_clone: effect("clone",0,a); return -EAGAIN;
	case SYS_execve: effect("exec",(char*)a,0); return -EACCES; case SYS_execveat: effect("exec",(char*)b,0); return -EACCES;
	case SYS_socket: case SYS_socketpair: effect("socket",0,a); return -EACCES;
	case SYS_connect: case SYS_bind: case SYS_listen: case SYS_sendto: case SYS_sendmsg: effect("net",0,nr); return -EBADF;
	case SYS_pipe: case SYS_pipe2: effect("pipe",0,0); return -EMFILE;
	case SYS_mkdir: { Node*n; int r=lookup(AT_FDCWD,(char*)a,0,&n); if (r) return r; if (n) return -EEXIST; char*q=palloc(strlen(RP)+1); strcpy(q,RP); effect("mkdir",q,b); wlog('m',q,0,"",0); node_new(q,'d',0,0)->touched=1; return 0; }
	case SYS_mkdirat: { Node*n; int r=lookup(a,(char*)b,0,&n); if (r) return r; if (n) return -EEXIST; char*q=palloc(strlen(RP)+1); strcpy(q,RP); effect("mkdir",q,c); wlog('m',q,0,"",0); node_new(q,'d',0,0)->touched=1; return 0; }
	case SYS_unlink: case SYS_rmdir: { Node*n; int r=lookup(AT_FDCWD,(char*)a,0,&n); if (r) return r; if (!n) return -ENOENT; effect("unlink",n->path,0); wlog('u',n->path,0,"",0); n->dead=1; return 0; }
	case SYS_unlinkat: { Node*n; int r=lookup(a,(char*)b,0,&n); if (r) return r; if (!n) return -ENOENT; effect("unlink",n->path,0); wlog('u',n->path,0,"",0); n->dead=1; return 0; }
	case SYS_rename: case SYS_renameat: case SYS_renameat2: { long fa=nr==SYS_rename?AT_FDCWD:a, ta=nr==SYS_rename?AT_FDCWD:c; char*fp=(char*)(nr==SYS_rename?a:b),*tp=(char*)(nr==SYS_rename?b:d); Node*n,*m; int r=lookup(fa,fp,0,&n); if (r) return r; if (!n) return -ENOENT; effect("rename-from",n->path,0); r=lookup(ta,tp,0,&m); if (r) return r; if (m) m->dead=1; char*q=palloc(strlen(RP)+1); strcpy(q,RP); effect("rename-to",q,0); wlog('r',n->path,0,q,strlen(q)); n->path=q; n->touched=1; return 0; }
	case SYS_link: case SYS_symlink: add_path_effect("link",AT_FDCWD,(char*)b); return 0; case SYS_linkat: add_path_effect("link",c,(char*)d); return 0; case SYS_symlinkat: add_path_effect("link",b,(char*)c); return 0;
	case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_truncate: case SYS_utime: case SYS_utimes: case SYS_setxattr: case SYS_mknod: add_path_effect("meta",AT_FDCWD,(char*)a); return 0;
	case SYS_fchmodat: case SYS_fchownat: case SYS_utimensat: case SYS_mknodat: if (b) add_path_effect("meta",a,(char*)b); else effect("meta",0,a); return 0;
	case SYS_fchmod: case SYS_fchown: effect("meta",fd_get(a)&&fd_get(a)->n?fd_get(a)->n->path:0,nr); return 0;
	case SYS_ftruncate: { FD*x=fd_get(a); if (x&&x->kind<=2) { effect("stream-truncate",0,x->kind); return fdkind[(int)x->kind]=='f'?0:-EINVAL; } if (!x||!x->n) return -EINVAL; effect("truncate",x->n->path,b); wlog('t',x->n->path,b,"",0); if ((u64)b<x->n->len) x->n->len=b; x->n->touched=1; return 0; }
	case SYS_fsync: case SYS_fdatasync: { FD*x=fd_get(a); if (!x) return -EBADF; return x->n?0:-EINVAL; }
	case SYS_sync: return 0; case SYS_flock: { FD*x=fd_get(a); if (x&&x->kind<=2) effect("stream-lock",0,x->kind); return 0; } case SYS_umask: return 022; case SYS_alarm: return 0; case SYS_fadvise64: return 0; case SYS_fallocate: return 0;
	case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: return -ENOSYS;
	case SYS_memfd_create: effect("memfd",0,0); return -ENOSYS;
	case SYS_ptrace: case SYS_mount: case SYS_umount2: case SYS_reboot: case SYS_shmget: case SYS_msgget: case SYS_semget: case SYS_shmat: case SYS_msgsnd: case SYS_mq_open: case SYS_add_key: case SYS_request_key: case SYS_keyctl: case SYS_io_uring_setup: case SYS_io_setup: case SYS_bpf: case SYS_syslog: case SYS_process_vm_writev: case SYS_rt_sigqueueinfo: case SYS_pidfd_send_signal: case SYS_lsetxattr: case SYS_fsetxattr: case SYS_removexattr: case SYS_sethostname: case SYS_settimeofday: case SYS_clock_settime: case SYS_open_by_handle_at: case SYS_swapon: case SYS_chroot: case SYS_pivot_root: case SYS_unshare: case SYS_setns: case SYS_init_module: case SYS_acct: effect("sys",0,nr); return -EPERM;
	case SYS_openat2: { u64*how=(u64*)c; return sys_open(a,(char*)b,(int)how[0],(int)how[1]); }
	default: R->unknown++; { LN=0; l_s("unknown "); l_n(nr); trace_flush(); } return -ENOSYS;
	}
}
static int cls_of_nr(long nr, long a) {
	switch (nr) { case SYS_write: case SYS_writev: case SYS_pwrite64: { FD*f=fd_get(a); return f?f->kind==1?C_WOUT:f->kind==2?C_WERR:C_WFILE:C_WFILE; }
	case SYS_read: case SYS_readv: case SYS_pread64: { FD*f=fd_get(a); return f&&f->kind==0?C_RSTDIN:C_RFILE; }
	case SYS_open: case SYS_openat: case SYS_creat: return C_OPEN; case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_faccessat: case SYS_faccessat2: return C_STAT;
	case SYS_getcwd: return C_GETCWD; case SYS_ioctl: return C_IOCTL; case SYS_poll: case SYS_ppoll: return C_POLL; case SYS_fstat: return C_FSTAT; case SYS_getrandom: return C_RANDOM; case SYS_close: return C_CLOSE; case SYS_readlink: case SYS_readlinkat: return C_READLINK; case SYS_mmap: return C_MMAP; }
	return C_OTHER;
}
static void on_sigsys(int sig, siginfo_t *si, void *ctx) {
	(void)sig; ucontext_t *uc=ctx; greg_t *g=uc->uc_mcontext.gregs; long nr=si->si_syscall;
	int saved=errno;
	// joining a thread that has already left the simulation: how far its real exit has come must not show as a step
	if (passthrough_futex && nr==SYS_futex) { g[REG_RAX]=RAW(nr,g[REG_RDI],g[REG_RSI],g[REG_RDX],g[REG_R10],g[REG_R8],g[REG_R9]); errno=saved; return; }
	// glibc's start_thread of a thread that has not taken the baton yet: answer harmlessly without touching state
	if (nr==SYS_rseq) { g[REG_RAX]=-ENOSYS; return; }
	if (nr==SYS_set_robust_list) { g[REG_RAX]=0; return; }
	if (nr==SYS_rt_sigprocmask) { g[REG_RAX]=dispatch(nr,g[REG_RDI],g[REG_RSI],g[REG_RDX],0,0,0,uc); return; }
	if (in_create) { if (nr==SYS_mmap||nr==SYS_mremap) { g[REG_RAX]=RAW(nr,g[REG_RDI],g[REG_RSI],g[REG_RDX],g[REG_R10],g[REG_R8],g[REG_R9]); errno=saved; return; } }
	cur_step=R->steps++; hit_idx=-1; tr_path=0; pending_part=-1;
	if (R->steps>lim_steps) die(E_STEPS,0);
	clk_adv(1000);
	apply_edits(cur_step);
	if (have_kill && cur_step==kill_step) {
		if (kill_part>=0 && (nr==SYS_write||nr==SYS_writev)) { pending_part=kill_part; if (pending_part>0) dispatch(nr,g[REG_RDI],g[REG_RSI],g[REG_RDX],g[REG_R10],g[REG_R8],g[REG_R9],uc); pending_part=-1; }
		R->killfired++; R->steps_after_fault=R->steps; LN=0; l_s("kill "); l_n(kill_sig); trace_flush();
		if (kill_sig==9) die(E_SIMKILL,9);
		raise_real(kill_sig); // delivered when the handler returns (or at once): default action ends the process
	}
	long r=dispatch(nr,g[REG_RDI],g[REG_RSI],g[REG_RDX],g[REG_R10],g[REG_R8],g[REG_R9],uc);
	int c=cls_of_nr(nr,g[REG_RDI]);
	u64 lg = r>0?64-__builtin_clzll(r):0; u8 sh[4]={(u8)c,(u8)(r<0?1:0),(u8)(r<0?(u8)-r:lg),(u8)(hit_idx>=0?1:0)}; R->shapehash=fnv(R->shapehash,sh,4);
	LN=0; l_n(cur_step); l_s(" "); if (nthr>1) { l_s("t"); l_n(tself); l_s(" "); } if (c==C_OTHER||c==C_MMAP) { l_s("sys"); l_n(nr); } else l_s(cname[c]);
	if (tr_path) { l_s(" "); l_s(tr_path); } else if (c==C_WOUT||c==C_WERR||c==C_WFILE||c==C_RFILE) { l_s(" "); l_n(g[REG_RDX]); }
	if (c!=C_MMAP) { l_s(" = "); l_n(r); } if (hit_idx>=0) { l_s(" !"); l_n(hit_idx); } trace_flush();
	if (nthr>1 && nr!=SYS_futex) sched(tself);
	else if (nthr>1) sched(tself);
	g[REG_RAX]=r; errno=saved;
}

// ---------------------------------------------------------------- request parsing
static char *rq, *rq_end;
static char *tok(char **p) { char*s=*p; while (*s==' ') s++; char*e=s; while (*e&&*e!=' ') e++; if (*e) *e++=0; *p=e; return s; }
static i64 num(const char *s) { int neg=*s=='-'; if (neg) s++; u64 v=0; while (*s>='0'&&*s<='9') v=v*10+(*s++-'0'); return neg?-(i64)v:(i64)v; }
static int hexv(char c) { return c<='9'?c-'0':(c|32)-'a'+10; }
static u8 *unhex(const char *s, u64 *n) { if (*s=='-') { *n=0; u8*p=palloc(16); p[0]=0; return p; } u64 k=strlen(s)/2; u8*p=palloc(k+1); for (u64 i=0;i<k;i++) p[i]=hexv(s[2*i])<<4|hexv(s[2*i+1]); p[k]=0; *n=k; return p; }
static char *argv_[4096]; static int argc_; static char *envp_[4096]; static int envc_;
static int parse(void) {
	char *p=rq; u64 n;
	while (p<rq_end) {
		char *nl=memchr(p,'\n',rq_end-p); if (!nl) nl=rq_end; *nl=0; char *l=p; p=nl+1; char *k=tok(&l); if (!*k) continue;
#define IS(x) (!strcmp(k,x))
		if (IS("argv")) argv_[argc_++]=(char*)unhex(tok(&l),&n);
		else if (IS("env")) envp_[envc_++]=(char*)unhex(tok(&l),&n);
		else if (IS("cwd")) cwd=(char*)unhex(tok(&l),&n);
		else if (IS("cwderr")) cwderr=num(tok(&l));
		else if (IS("node")) { char t=*tok(&l); char*path=(char*)unhex(tok(&l),&n); int oe=num(tok(&l)),se=num(tok(&l)),xe=num(tok(&l)); u8*d=unhex(tok(&l),&n); Node*x=node_new(path,t,d,n); x->openerr=oe; x->staterr=se; x->searcherr=xe; }
		else if (IS("fd")) { int i=num(tok(&l)); if (i<0||i>2) return 1; fdkind[i]=*tok(&l); }
		else if (IS("stdin")) stdin_b=unhex(tok(&l),&stdin_n);
		else if (IS("win")) { win_r=num(tok(&l)); win_c=num(tok(&l)); }
		else if (IS("fault")) { if (nfaults==MAXFAULT) return 2; Fault*f=&faults[nfaults]; char*c=tok(&l); f->cls=-1; for (int i=0;i<NCLASS;i++) if (!strcmp(c,cname[i])) f->cls=i; if (f->cls<0) return 3; f->from=num(tok(&l)); f->count=num(tok(&l)); char*kd=tok(&l); f->kind=!strcmp(kd,"err")?F_ERR:!strcmp(kd,"short")?F_SHORT:!strcmp(kd,"delay")?F_DELAY:-1; if (f->kind<0) return 4; f->arg=num(tok(&l)); f->idx=nfaults++; }
		else if (IS("cap")) { int i=num(tok(&l)); if (i<1||i>2) return 5; caps[i].bytes=num(tok(&l)); caps[i].err=num(tok(&l)); caps[i].oneshot=num(tok(&l)); caps[i].partial=num(tok(&l)); caps[i].set=1; }
		else if (IS("kill")) { have_kill=1; kill_step=num(tok(&l)); kill_sig=num(tok(&l)); kill_part=num(tok(&l)); }
		else if (IS("edit")) { if (nedits==256) return 6; Edit*e=&edits[nedits++]; e->step=num(tok(&l)); e->op=*tok(&l); e->path=(char*)unhex(tok(&l),&n); e->data=unhex(tok(&l),&e->len); }
		else if (IS("seed")) rnd_state=num(tok(&l));
		else if (IS("sched")) sched_seed=num(tok(&l));
		else if (IS("clock")) { clk_s=num(tok(&l)); clk_ns=num(tok(&l)); clk_tick=num(tok(&l)); }
		else if (IS("cjump")) { cjump_at=num(tok(&l)); cjump_d=num(tok(&l)); }
		else if (IS("pid")) sim_pid=num(tok(&l)); else if (IS("uid")) sim_uid=num(tok(&l)); else if (IS("cpus")) sim_cpus=num(tok(&l));
		else if (IS("attr")) attr_seed=num(tok(&l)); else if (IS("heap")) heap_idx=num(tok(&l)); else if (IS("stackoff")) stack_off=num(tok(&l));
		else if (IS("lim")) { lim_steps=num(tok(&l)); lim_mem=num(tok(&l)); lim_stack=num(tok(&l)); lim_cpu=num(tok(&l)); }
		else if (IS("oom")) { have_oom=1; oom_at=num(tok(&l)); oom_count=num(tok(&l)); }
		else return 9;
	}
	return 0;
}

// ---------------------------------------------------------------- fork server
static void rd_full(void *p, u64 n) { u8*b=p; while (n) { long r=RAW(SYS_read,0,b,n,0,0,0); if (r==-EINTR) continue; if (r<=0) RAW(SYS_exit_group,0,0,0,0,0,0); b+=r; n-=r; } }
static void wr_full(const void *p, u64 n) { const u8*b=p; while (n) { long r=RAW(SYS_write,1,b,n,0,0,0); if (r==-EINTR) continue; if (r<=0) RAW(SYS_exit_group,0,0,0,0,0,0); b+=r; n-=r; } }
typedef int (*main_t)(int,char**,char**);
typedef int (*lsm_t)(main_t,int,char**,void(*)(void),void(*)(void),void(*)(void),void*);

static void install_filter(void) {
	u64 ip=(u64)sim_raw_ip; u32 lo=(u32)ip, hi=(u32)(ip>>32);
	#define LD(o) BPF_STMT(BPF_LD|BPF_W|BPF_ABS,(o))
	#define JEQ(v,t,f) BPF_JUMP(BPF_JMP|BPF_JEQ|BPF_K,(v),(t),(f))
	#define RET(v) BPF_STMT(BPF_RET|BPF_K,(v))
	struct sock_filter fl[]={
		LD(offsetof(struct seccomp_data,arch)), JEQ(AUDIT_ARCH_X86_64,1,0), RET(SECCOMP_RET_KILL_PROCESS),
		LD(offsetof(struct seccomp_data,instruction_pointer)), JEQ(lo,0,3),
		LD(offsetof(struct seccomp_data,instruction_pointer)+4), JEQ(hi,0,1), RET(SECCOMP_RET_ALLOW),
		LD(offsetof(struct seccomp_data,nr)),
		JEQ(SYS_rt_sigreturn,0,1), RET(SECCOMP_RET_ALLOW),
		JEQ(SYS_sigaltstack,0,1), RET(SECCOMP_RET_ALLOW),
		JEQ(SYS_mprotect,0,1), RET(SECCOMP_RET_ALLOW),
		JEQ(SYS_munmap,0,1), RET(SECCOMP_RET_ALLOW),
		JEQ(SYS_madvise,0,1), RET(SECCOMP_RET_ALLOW),
		JEQ(SYS_restart_syscall,0,1), RET(SECCOMP_RET_ALLOW),
		JEQ(SYS_rseq,0,1), RET(SECCOMP_RET_ALLOW), // a new thread of glibc insists on it
		JEQ(SYS_clone3,0,1), RET(SECCOMP_RET_ERRNO|ENOSYS),
		JEQ(SYS_clone,0,3), LD(offsetof(struct seccomp_data,args[0])), JEQ(0x3d0f00,0,1), RET(SECCOMP_RET_ALLOW),
		RET(SECCOMP_RET_TRAP),
	};
	struct sock_fprog pr={.len=sizeof fl/sizeof fl[0],.filter=fl};
	RAW(SYS_prctl,PR_SET_NO_NEW_PRIVS,1,0,0,0,0);
	long r=RAW(SYS_seccomp,SECCOMP_SET_MODE_FILTER,0,&pr,0,0,0);
	if (r) { static const char m[]="shim: seccomp failed\n"; RAW(SYS_write,2,m,sizeof m-1,0,0,0); RAW(SYS_exit_group,98,0,0,0,0,0); }
}
static __attribute__((noinline)) int run_child(lsm_t real, main_t m, void(*init)(void), void(*fini)(void), void(*rtld)(void), void*se) {
	volatile char *pad=__builtin_alloca(64+stack_off); pad[0]=0;
	environ=envp_;
	active=1;
	return real(m,argc_,argv_,init,fini,rtld,se);
}
int __libc_start_main(main_t m, int argc, char **argv, void(*init)(void), void(*fini)(void), void(*rtld)(void), void *se) {
	lsm_t real=(lsm_t)dlsym(RTLD_NEXT,"__libc_start_main");
	if (!getenv("PEMVSIM_SERVER")) return real(m,argc,argv,init,fini,rtld,se);
	(void)dlsym(RTLD_NEXT,"pthread_create");
	u64 tot=4096*4+OUT_CAP+ERR_CAP+TRC_CAP+EFF_CAP+PRB_CAP+WLG_CAP;
	u8*sh=(u8*)RAW(SYS_mmap,0x200000000000,tot,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
	if ((long)sh<0&&(long)sh>-4096) RAW(SYS_exit_group,97,0,0,0,0,0);
	R=(Res*)sh; OUTB=sh+4096*4; ERRB=OUTB+OUT_CAP; TRCB=ERRB+ERR_CAP; EFFB=TRCB+TRC_CAP; PRBB=EFFB+EFF_CAP; WLGB=PRBB+PRB_CAP;
	struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sigsys; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigemptyset(&sa.sa_mask); sigaction(SIGSYS,&sa,0);
	{ struct rlimit rl={0,0}; RAW(SYS_prlimit64,0,RLIMIT_CORE,&rl,0,0,0); }
	u64 rqcap=16u<<20; rq=(char*)RAW(SYS_mmap,0x210000000000,rqcap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
	install_filter();
	for (;;) {
		u32 n; rd_full(&n,4); if (n>=rqcap) RAW(SYS_exit_group,96,0,0,0,0,0); rd_full(rq,n); rq[n]=0; rq_end=rq+n;
		memset(R,0,sizeof *R); R->magic=0x50454d56; R->tracehash=R->shapehash=0xcbf29ce484222325ull;
		long pid=RAW(SYS_fork,0,0,0,0,0,0);
		if (pid==0) {
			pa=(u8*)RAW(SYS_mmap,0x220000000000,256u<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); pa_end=pa+(256u<<20);
			node_new("/",'d',0,0);
			int e=parse(); if (e) die(E_HARNESS,100+e);
			for (int i=0;i<3;i++) if (fdkind[i]!='c') fds[i]=(FD){.kind=(char)i,.used=1,.flags=i?O_WRONLY:O_RDONLY};
			thr[0]=(Thr){.state=T_RUN,.deadline=~0ull};
			u64 hb=0x100000000000ull+(heap_idx&63)*0x1000000000ull+((heap_idx>>6)&255)*4096; u64 hs=64ull<<30; 
			long h=RAW(SYS_mmap,hb,hs,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if ((u64)h!=hb) die(E_HARNESS,3);
			hp=(u8*)h+((heap_idx>>14)&63)*16; hp_end=(u8*)h+hs;
			struct rlimit rl={lim_stack,lim_stack}; RAW(SYS_prlimit64,0,RLIMIT_STACK,&rl,0,0,0); rl.rlim_cur=lim_cpu; rl.rlim_max=lim_cpu+1; RAW(SYS_prlimit64,0,RLIMIT_CPU,&rl,0,0,0);
			run_child(real,m,init,fini,rtld,se); die(E_HARNESS,4);
		}
		int st=0; if (pid<0) { R->endkind=E_HARNESS; R->code=5; } else { long r; do r=RAW(SYS_wait4,pid,&st,0,0,0,0); while (r==-EINTR); }
		R->waitstatus=st;
		u32 hl=sizeof *R; wr_full(&hl,4); wr_full(R,sizeof *R);
		wr_full(OUTB,R->outlen); wr_full(ERRB,R->errlen); wr_full(TRCB,R->trclen); wr_full(EFFB,R->efflen); wr_full(PRBB,R->prblen); wr_full(WLGB,R->wlglen);
	}
}
