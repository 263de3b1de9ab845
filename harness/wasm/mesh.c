// A wasmrs guest for the mesh monitors. What it exports, imports and calls
// itself is patched into its data; what it does is told by each request:
//
//   'R' n    reply (n items on a stream; a channel echoes)
//   'E' text fail
//   'H'      never answer
//   'C' type index(4) rest   make a request through an import, relay its answer
//   'L'      report the fire and forget requests received
//   'T'      trap
typedef unsigned int u32;
typedef unsigned char u8;

#define IMPORT(n) __attribute__((import_module("wasmrs"), import_name(n)))
#define EXPORT(n) __attribute__((export_name(n)))

IMPORT("__init_buffers") void init_buffers(u32, u32);
IMPORT("__op_list") void op_list(u32, u32);
IMPORT("__send") void host_send(u32);

enum { RR = 4, FNF, RS, RC, REQN, CANCEL, PAYLOAD, ERROR };
enum { FNEXT = 1 << 5, FCOMPLETE = 1 << 6, FMETADATA = 1 << 8 };

#define CAP 16384
static u8 in[CAP + 8], out[CAP + 8];
static u32 pos;

// "@@" follows the marker; then the length (4), the tag (8) and the table.
volatile u8 config[8192] = "VERIFCONFIG@@";
#define CFG (config + 16)

static void copy(u8 *d, const u8 *s, u32 n) { while (n--) *d++ = *s++; }
static u32 get4(const u8 *p) { return (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void put4(u8 *p, u32 v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }

static void flush(void) {
	if (pos) host_send(pos);
	pos = 0;
}

// frame appends a frame with the body a followed by b.
static void frame(u32 id, u32 type, u32 flags, const u8 *a, u32 na, const u8 *b, u32 nb) {
	u32 n = 6 + na + nb;
	if (n + 3 > CAP) __builtin_trap();
	if (pos + 3 + n > CAP) flush();
	u8 *p = out + pos;
	p[0] = n >> 16; p[1] = n >> 8; p[2] = n;
	put4(p + 3, id);
	u32 w = type << 10 | flags;
	p[7] = w >> 8; p[8] = w;
	copy(p + 9, a, na);
	copy(p + 9 + na, b, nb);
	pos += 3 + n;
}

#define MAXS 2048
static struct stream {
	u32 id, peer;
	u8 kind, mode, done;
	u32 op, left, seq;
	unsigned long long credit;
} streams[MAXS];
static u32 used, next_id = 1;

static struct stream *find(u32 id) {
	for (u32 i = used; i-- > 0 && used - i <= MAXS;)
		if (streams[i % MAXS].id == id) return &streams[i % MAXS];
	return 0;
}

static struct stream *add(u32 id, u8 kind) {
	struct stream *s = &streams[used++ % MAXS];
	*s = (struct stream){.id = id, .kind = kind};
	return s;
}

static u8 log_[4096];
static u32 logged, total;

// head is what replies start with: tag, type and index.
static u32 head(u8 *b, u32 type, u32 op) {
	for (u32 i = 0; i < 8; i++) b[i] = CFG[4 + i];
	b[8] = type;
	put4(b + 9, op);
	return 13;
}

static void pump(struct stream *s) {
	u8 b[16];
	while (s->left && s->credit) {
		u32 n = head(b, s->kind, s->op);
		b[n++] = s->seq++;
		s->left--;
		s->credit--;
		frame(s->id, PAYLOAD, FNEXT, b, n, 0, 0);
	}
	if (!s->left && !s->done) {
		s->done = 1;
		frame(s->id, PAYLOAD, FCOMPLETE, 0, 0, 0, 0);
	}
}

static void fail(u32 id, const u8 *text, u32 n) {
	u8 code[4] = {0, 0, 2, 1};
	frame(id, ERROR, 0, code, 4, text, n);
}

static void request(u32 id, u32 type, u32 n0, const u8 *md, u32 nmd, const u8 *data, u32 n) {
	static u8 b[CAP];
	if (nmd < 4 || n < 1) {
		if (type != FNF) fail(id, (const u8 *)"bad request", 11);
		return;
	}
	u32 op = get4(md);
	struct stream *s = type == FNF ? 0 : add(id, type);
	if (s) s->op = op, s->credit = n0, s->mode = data[0];
	switch (data[0]) {
	case 'R':
		if (type == RR) {
			u32 k = head(b, type, op);
			b[k++] = nmd >> 8;
			b[k++] = nmd;
			copy(b + k, md, nmd);
			k += nmd;
			frame(id, PAYLOAD, FNEXT | FCOMPLETE, b, k, data + 1, n - 1);
		} else if (type == FNF) {
			if (logged + 12 <= sizeof log_) {
				put4(log_ + logged, op);
				for (u32 i = 0; i < 8; i++) log_[logged + 4 + i] = i + 1 < n ? data[1 + i] : 0;
				logged += 12;
			}
			total++;
		} else if (type == RS) {
			s->left = n > 1 ? data[1] : 0;
			pump(s);
		} else {
			put4(b, 0x7fffffff);
			frame(id, REQN, 0, b, 4, 0, 0);
		}
		break;
	case 'E':
		if (s) fail(id, data + 1, n - 1);
		break;
	case 'L':
		put4(b, total);
		copy(b + 4, log_, logged);
		frame(id, PAYLOAD, FNEXT | FCOMPLETE, b, 4 + logged, 0, 0);
		break;
	case 'T':
		__builtin_trap();
	case 'C': {
		if (n < 6) __builtin_trap();
		u32 t = data[1] + 3, g = next_id;
		next_id += 2;
		if (s) {
			s->peer = g;
			add(g, t)->peer = id;
		}
		u32 k = 0;
		if (t == RS || t == RC) {
			put4(b, n0);
			k = 4;
		}
		b[k] = b[k + 1] = 0;
		b[k + 2] = 8;
		copy(b + k + 3, data + 2, 4);
		put4(b + k + 7, id);
		frame(g, t, FMETADATA, b, k + 11, data + 6, n - 6);
	}
	}
}

EXPORT("__wasmrs_init") u32 init(u32 to, u32 from, u32 max) {
	init_buffers((u32)in, (u32)out);
	return 1;
}

EXPORT("__wasmrs_op_list_request") void list(void) {
	op_list((u32)(CFG + 12), get4((const u8 *)CFG));
}

EXPORT("__wasmrs_send") void send(u32 end) {
	u32 at = 0;
	while (at + 9 <= end) {
		u32 n = in[at] << 16 | in[at + 1] << 8 | in[at + 2];
		const u8 *p = in + at + 3;
		at += 3 + n;
		if (n < 6 || at > end) __builtin_trap();
		u32 id = get4(p), w = p[4] << 8 | p[5];
		u32 type = w >> 10, flags = w & 0x3ff;
		p += 6;
		n -= 6;
		const u8 *body = p;
		u32 nbody = n, n0 = 1;
		if (type == RS || type == RC || type == REQN) {
			n0 = get4(p);
			p += 4;
			n -= 4;
		}
		const u8 *md = 0;
		u32 nmd = 0;
		if (type != REQN && type != CANCEL && type != ERROR && flags & FMETADATA) {
			nmd = p[0] << 16 | p[1] << 8 | p[2];
			md = p + 3;
			p += 3 + nmd;
			n -= 3 + nmd;
		}
		if (type >= RR && type <= RC) {
			request(id, type, n0, md, nmd, p, n);
			continue;
		}
		struct stream *s = find(id);
		if (!s) continue;
		if (s->peer) {
			frame(s->peer, type, flags, body, nbody, 0, 0);
			continue;
		}
		if (s->mode != 'R') continue;
		if (type == CANCEL) {
			s->left = 0;
			s->done = 1;
		} else if (type == REQN && s->kind == RS) {
			s->credit += n0;
			pump(s);
		} else if (s->kind == RC && !s->done) {
			if (type == PAYLOAD && flags & FNEXT) {
				u8 b[16];
				u32 k = head(b, RC, s->op);
				frame(id, PAYLOAD, FNEXT, b, k, p, n);
			}
			if (type == PAYLOAD && flags & FCOMPLETE) {
				s->done = 1;
				frame(id, PAYLOAD, FCOMPLETE, 0, 0, 0, 0);
			}
			if (type == ERROR) {
				s->done = 1;
				fail(id, p + 4, n - 4);
			}
		}
	}
	flush();
}
