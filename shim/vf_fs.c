/* Byte-exact small files with a fault schedule (#include'd by harnesses). */
#ifndef VF_NFILES
#define VF_NFILES 4
#endif
#ifndef VF_IOMAX
#define VF_IOMAX 64
#endif
#define VF_NFDS 12
#define VF_FD0 10

#ifndef VF_NPROBE
#define VF_NPROBE 1
#endif
enum { VF_ABSENT, VF_REG, VF_BLK, VF_CHR };
/* data != NULL: byte-exact file.  data == NULL: a file of any size of which only
 * nprobe bytes are tracked (symbolic offsets poff[], current values pval[]);
 * every other byte reads as an arbitrary value. */
struct vf_file {
	const char *path;
	int kind;
	uint8_t *data;
	uint64_t size, cap;
	unsigned nprobe;
	uint64_t poff[VF_NPROBE];
	uint8_t pval[VF_NPROBE];
	bool reliable;		/* no injected faults on this file */
	bool concrete_short;
	/* observations */
	unsigned opens, wopens, writes, creats, truncs, syncs, unlinks;
	bool eio, dirty;	/* dirty: written since the last fsync */
};
static struct vf_file vf_files[VF_NFILES];
static struct { bool used; int file; uint64_t pos; int flags; } vf_fds[VF_NFDS];
static int vf_next_fd;
static int vf_budget_short, vf_budget_eintr, vf_budget_eio;
static bool vf_eio_happened;
static int vf_budget_open;
static bool vf_open_failed;
#ifndef VF_ON_WRITE
#define VF_ON_WRITE(fileidx, off, buf, n) do {} while (0)
#endif
#ifndef VF_ON_READ
#define VF_ON_READ(fileidx, off, n) do {} while (0)
#endif

static int vf_find(const char *path)
{
	for (int i = 0; i < VF_NFILES; i++)
		if (vf_files[i].path && vf_streq(vf_files[i].path, path))
			return i;
	return -1;
}
int vf_open(const char *path, int flags, ...)
{
	int i = vf_find(path);
	if (i < 0) { errno = ENOENT; return -1; }
	struct vf_file *f = &vf_files[i];
	/* the descriptor is used up even by a failing call: that keeps numbers
	 * and file indices concrete on the paths behind it */
	VF_CHECK(vf_next_fd < VF_NFDS, "harness: too many opens");
	int fd = vf_next_fd++;
	vf_fds[fd].used = false;
	vf_fds[fd].file = i;
	vf_fds[fd].pos = 0;
	vf_fds[fd].flags = flags;
#ifdef VF_FAIL_HOOK	/* decides concretely which call fails */
	if (VF_FAIL_HOOK()) {
#else
	if (vf_budget_open > 0 && vf_ndb()) {
		vf_budget_open--;
#endif
		vf_open_failed = true;
		errno = EACCES;
		return -1;
	}
	if (f->kind == VF_ABSENT) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		f->kind = VF_REG;
		f->size = 0;
		f->creats++;
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) {
		errno = EEXIST; return -1;
	} else if (flags & O_TRUNC) {
		f->truncs++;
		f->size = 0;
	}
	vf_fds[fd].used = true;
	f->opens++;
	if ((flags & O_ACCMODE) != O_RDONLY)
		f->wopens++;
	return fd + VF_FD0;
}
static int vf_fdidx(int fd)
{
#ifdef VF_STDOUT	/* index of the file that stands for standard output */
	if (fd == 1) {
		vf_fds[VF_NFDS - 1].used = true;
		vf_fds[VF_NFDS - 1].file = VF_STDOUT;
		vf_fds[VF_NFDS - 1].flags = O_WRONLY;
		return VF_NFDS - 1;
	}
#endif
	fd -= VF_FD0;
	if (fd < 0 || fd >= VF_NFDS || !vf_fds[fd].used)
		return -1;
	return fd;
}
int vf_close(int fd)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	vf_fds[k].used = false;
	return 0;
}
static bool vf_fault(struct vf_file *f)
{
	if (f->reliable)
		return false;
	if (vf_budget_eintr > 0 && vf_ndb()) { vf_budget_eintr--; errno = EINTR; return true; }
	if (vf_budget_eio > 0 && vf_ndb()) { vf_budget_eio--; vf_eio_happened = f->eio = true; errno = EIO; return true; }
	return false;
}
static uint64_t vf_shorten(struct vf_file *f, uint64_t n)
{
	if (!f->reliable && n > 1 && vf_budget_short > 0 && vf_ndb()) {
		vf_budget_short--;
		return vf_range(1, n - 1);
	}
	return n;
}
static void vf_data_out(struct vf_file *f, uint64_t off, uint8_t *buf, uint64_t r)
{
	if (f->data) {
		VF_CHECK(r <= VF_IOMAX, "harness: transfer larger than the model");
		for (uint64_t i = 0; i < r && i < VF_IOMAX; i++)
			buf[i] = f->data[off + i];
		return;
	}
	if (!r)
		return;
#ifdef VF_PROBE_HAVOC
	/* an arbitrary byte of the transfer is arbitrary */
	uint64_t h = vf_nd64();
	VF_ASSUME(h < r);
	buf[h] = vf_nd8();
#endif
	/* memory safety of the whole transfer */
	buf[0] = buf[0];
	buf[r - 1] = buf[r - 1];
	for (unsigned p = 0; p < VF_NPROBE && p < f->nprobe; p++)
		if (f->poff[p] >= off && f->poff[p] - off < r)
			buf[f->poff[p] - off] = f->pval[p];
}
static void vf_data_in(struct vf_file *f, uint64_t off, const uint8_t *buf, uint64_t r)
{
	if (f->data) {
		VF_CHECK(r <= VF_IOMAX, "harness: transfer larger than the model");
		for (uint64_t i = 0; i < r && i < VF_IOMAX; i++)
			f->data[off + i] = buf[i];
		return;
	}
	if (!r)
		return;
	volatile uint8_t first = buf[0], last = buf[r - 1];
	(void)first; (void)last;
	for (unsigned p = 0; p < VF_NPROBE && p < f->nprobe; p++)
		if (f->poff[p] >= off && f->poff[p] - off < r)
			f->pval[p] = buf[f->poff[p] - off];
}
ssize_t vf_pread(int fd, void *buf, size_t n, off_t off)
{
	int k = vf_fdidx(fd);
	if (k < 0 || (vf_fds[k].flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	struct vf_file *f = &vf_files[vf_fds[k].file];
	if (vf_fault(f))
		return -1;
	if (off < 0) { errno = EINVAL; return -1; }
	uint64_t avail = f->size > (uint64_t)off ? f->size - (uint64_t)off : 0;
	uint64_t r = vf_shorten(f, n < avail ? n : avail);
	VF_ON_READ(vf_fds[k].file, (uint64_t)off, r);
	vf_data_out(f, (uint64_t)off, buf, r);
	return (ssize_t)r;
}
ssize_t vf_read(int fd, void *buf, size_t n)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	ssize_t r = vf_pread(fd, buf, n, (off_t)vf_fds[k].pos);
	if (r > 0)
		vf_fds[k].pos += (uint64_t)r;
	return r;
}
ssize_t vf_pwrite(int fd, const void *buf, size_t n, off_t off)
{
	int k = vf_fdidx(fd);
	if (k < 0 || (vf_fds[k].flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	struct vf_file *f = &vf_files[vf_fds[k].file];
	if (vf_fault(f))
		return -1;
	if (off < 0) { errno = EINVAL; return -1; }
	uint64_t r = vf_shorten(f, n);
	if (r && (f->kind == VF_BLK || (uint64_t)off + r > f->cap)) {
		/* a device does not grow; a model file cannot grow past cap */
		uint64_t lim = f->kind == VF_BLK ? f->size : f->cap;
		if ((uint64_t)off >= lim) { errno = ENOSPC; vf_eio_happened = f->eio = true; return -1; }
		if (r > lim - (uint64_t)off) r = lim - (uint64_t)off;
	}
	VF_ON_WRITE(vf_fds[k].file, (uint64_t)off, (const uint8_t *)buf, r);
	vf_data_in(f, (uint64_t)off, buf, r);
	if ((uint64_t)off + r > f->size)
		f->size = (uint64_t)off + r;
	f->writes++;
		f->dirty = true;
	return (ssize_t)r;
}
ssize_t vf_write(int fd, const void *buf, size_t n)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	ssize_t r = vf_pwrite(fd, buf, n, (off_t)vf_fds[k].pos);
	if (r > 0)
		vf_fds[k].pos += (uint64_t)r;
	return r;
}
off_t vf_lseek(int fd, off_t off, int whence)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off_t)vf_fds[k].pos
	                                    : (off_t)vf_files[vf_fds[k].file].size;
	if (base + off < 0) { errno = EINVAL; return -1; }
	vf_fds[k].pos = (uint64_t)(base + off);
	return base + off;
}
#ifndef VF_OWN_FSTAT
int vf_fstat(int fd, struct stat *st)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	struct vf_file *f = &vf_files[vf_fds[k].file];
	st->st_mode = (f->kind == VF_REG ? S_IFREG : f->kind == VF_BLK ? S_IFBLK : S_IFCHR) | 0644;
	st->st_size = f->kind == VF_REG ? (off_t)f->size : 0;
	return 0;
}
#endif
int vf_ioctl(int fd, unsigned long req, ...)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	struct vf_file *f = &vf_files[vf_fds[k].file];
	if (req != BLKGETSIZE64 || f->kind != VF_BLK) { errno = ENOTTY; return -1; }
	va_list ap;
	va_start(ap, req);
	*va_arg(ap, uint64_t *) = f->size;
	va_end(ap);
	return 0;
}
int vf_ftruncate(int fd, off_t n)
{
	int k = vf_fdidx(fd);
	if (k < 0 || n < 0) { errno = EBADF; return -1; }
	vf_files[vf_fds[k].file].truncs++;
	vf_files[vf_fds[k].file].size = (uint64_t)n;
	return 0;
}
int vf_fsync(int fd)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
#ifdef VF_FAIL_HOOK
	if (VF_FAIL_HOOK()) { errno = EIO; vf_eio_happened = true; return -1; }
#endif
	vf_files[vf_fds[k].file].syncs++;
	vf_files[vf_fds[k].file].dirty = false;
	return 0;
}
int vf_access(const char *path, int mode)
{
	(void)mode;
	int i = vf_find(path);
	if (i < 0 || vf_files[i].kind == VF_ABSENT) { errno = ENOENT; return -1; }
	return 0;
}
int vf_unlink(const char *path)
{
	int i = vf_find(path);
	if (i < 0 || vf_files[i].kind == VF_ABSENT) { errno = ENOENT; return -1; }
	vf_files[i].kind = VF_ABSENT;
	vf_files[i].size = 0;
	vf_files[i].unlinks++;
	return 0;
}
int vf_rename(const char *a, const char *b)
{
	int i = vf_find(a), j = vf_find(b);
	if (i < 0 || j < 0) { errno = ENOENT; return -1; }
	vf_files[j].kind = vf_files[i].kind;
	vf_files[j].data = vf_files[i].data;
	vf_files[j].size = vf_files[i].size;
	vf_files[j].cap = vf_files[i].cap;
	vf_files[i].kind = VF_ABSENT;
	return 0;
}
int vf_posix_fadvise(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }

#ifdef VF_CONTRACT_IO
/* readall & co. by the contract that C20 decides for them (utils.c is then
 * compiled with its own definitions renamed, see CONTRACT_IO in vf/checks.py) */
static bool vf_call_fails(struct vf_file *f)
{
#ifdef VF_FAIL_HOOK
	if (!VF_FAIL_HOOK())
		return false;
#else
	if (f->reliable || vf_budget_eio <= 0 || !vf_ndb())
		return false;
	vf_budget_eio--;
#endif
	vf_eio_happened = f->eio = true;
	errno = (int)vf_range(1, 133);
	return true;
}
int preadall(int fd, uint8_t *buf, size_t len, off_t off)
{
	int k = vf_fdidx(fd);
	if (k < 0 || (vf_fds[k].flags & O_ACCMODE) == O_WRONLY || off < 0) { errno = EBADF; return -1; }
	struct vf_file *f = &vf_files[vf_fds[k].file];
	uint64_t avail = f->size > (uint64_t)off ? f->size - (uint64_t)off : 0;
	if (avail < len || vf_call_fails(f))
		return -1;
	VF_ON_READ(vf_fds[k].file, (uint64_t)off, len);
	if (len)
		buf[len - 1] = 0;	/* there is room for all of it */
	vf_data_out(f, (uint64_t)off, buf, len);
	return 0;
}
int readall(int fd, uint8_t *buf, size_t len)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	if (preadall(fd, buf, len, (off_t)vf_fds[k].pos) < 0)
		return -1;
	vf_fds[k].pos += len;
	return 0;
}
int pwriteall(int fd, const uint8_t *buf, size_t len, off_t off)
{
	int k = vf_fdidx(fd);
	if (k < 0 || (vf_fds[k].flags & O_ACCMODE) == O_RDONLY || off < 0) { errno = EBADF; return -1; }
	struct vf_file *f = &vf_files[vf_fds[k].file];
	uint64_t lim = f->kind == VF_BLK ? f->size : f->cap, n = len;
	bool fail = vf_call_fails(f);
	if (fail) {
		n = vf_nd64();
		VF_ASSUME(n <= len);
	}
	uint64_t room = lim > (uint64_t)off ? lim - (uint64_t)off : 0;
	if (n > room) {
		n = room;
		fail = vf_eio_happened = f->eio = true;
	}
	if (n) {
		VF_ON_WRITE(vf_fds[k].file, (uint64_t)off, buf, n);
		vf_data_in(f, (uint64_t)off, buf, n);
		if ((uint64_t)off + n > f->size)
			f->size = (uint64_t)off + n;
		f->writes++;
		f->dirty = true;
	}
	return fail ? -1 : 0;
}
int writeall(int fd, const uint8_t *buf, size_t len)
{
	int k = vf_fdidx(fd);
	if (k < 0) { errno = EBADF; return -1; }
	if (pwriteall(fd, buf, len, (off_t)vf_fds[k].pos) < 0)
		return -1;
	vf_fds[k].pos += len;
	return 0;
}
#endif
