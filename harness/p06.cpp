// P06: DataArray1D..4D, DataStruct and DataContainer against a reference model.
#include "pbt.h"
#include "DataArray1D.h"
#include "DataArray2D.h"
#include "DataArray3D.h"
#include "DataArray4D.h"
#include "DataStruct.h"
#include "DataContainer.h"
#include <memory>
using namespace pbt;
typedef std::vector<size_t> Dims;

template <int D, typename T> struct Ad;
template <typename T> struct Ad<1, T> {
	typedef DataArray1D<T> A;
	static A * make(const Dims & d, DataType t, DataLocation l, bool f) { return new A(d[0], t, l, f); }
	static void alloc(A & a, const Dims & d) { a.Allocate(d[0]); }
	static void resize(A & a, const Dims & d) { a.SetSize(d[0]); }
	static T & at(A & a, const Dims & i, int how) { return how == 0 ? a[i[0]] : how == 1 ? a(i[0]) : *(((T *)a) + i[0]); }
	static const T & cat(const A & a, const Dims & i, int how) { return how == 0 ? a[i[0]] : how == 1 ? a(i[0]) : *(((const T *)a) + i[0]); }
	static size_t dim(const A & a, int) { return a.GetRows(); }
};
template <typename T> struct Ad<2, T> {
	typedef DataArray2D<T> A;
	static A * make(const Dims & d, DataType t, DataLocation l, bool f) { return new A(d[0], d[1], t, l, f); }
	static void alloc(A & a, const Dims & d) { a.Allocate(d[0], d[1]); }
	static void resize(A & a, const Dims & d) { a.SetSize(d[0], d[1]); }
	static T & at(A & a, const Dims & i, int how) { return how == 0 ? a[i[0]][i[1]] : how == 1 ? a(i[0], i[1]) : how == 2 ? a(i[0])[i[1]] : ((T *)(a[i[0]]))[i[1]]; }
	static const T & cat(const A & a, const Dims & i, int how) { return how == 0 ? a[i[0]][i[1]] : how == 1 ? a(i[0], i[1]) : how == 2 ? a(i[0])[i[1]] : ((const T *)(a[i[0]]))[i[1]]; }
	static size_t dim(const A & a, int k) { return k == 0 ? a.GetRows() : a.GetColumns(); }
};
template <typename T> struct Ad<3, T> {
	typedef DataArray3D<T> A;
	static A * make(const Dims & d, DataType t, DataLocation l, bool f) { return new A(d[0], d[1], d[2], t, l, f); }
	static void alloc(A & a, const Dims & d) { a.Allocate(d[0], d[1], d[2]); }
	static void resize(A & a, const Dims & d) { a.SetSize(d[0], d[1], d[2]); }
	static T & at(A & a, const Dims & i, int how) { return how == 0 ? a[i[0]][i[1]][i[2]] : how == 1 ? a(i[0], i[1], i[2]) : how == 2 ? a(i[0], i[1])[i[2]] : ((T *)(a[i[0]][i[1]]))[i[2]]; }
	static const T & cat(const A & a, const Dims & i, int how) { return how == 0 ? a[i[0]][i[1]][i[2]] : how == 1 ? a(i[0], i[1], i[2]) : how == 2 ? a(i[0], i[1])[i[2]] : ((const T *)(a[i[0]][i[1]]))[i[2]]; }
	static size_t dim(const A & a, int k) { return k == 0 ? a.GetRows() : k == 1 ? a.GetColumns() : a.GetSubColumns(); }
};
template <typename T> struct Ad<4, T> {
	typedef DataArray4D<T> A;
	static A * make(const Dims & d, DataType t, DataLocation l, bool f) { return new A(d[0], d[1], d[2], d[3], t, l, f); }
	static void alloc(A & a, const Dims & d) { a.Allocate(d[0], d[1], d[2], d[3]); }
	static void resize(A & a, const Dims & d) { a.SetSize(d[0], d[1], d[2], d[3]); }
	static T & at(A & a, const Dims & i, int how) { return how == 0 ? a[i[0]][i[1]][i[2]][i[3]] : how == 1 ? a(i[0], i[1], i[2], i[3]) : how == 2 ? a(i[0], i[1], i[2])[i[3]] : ((T *)(a[i[0]][i[1]][i[2]]))[i[3]]; }
	static const T & cat(const A & a, const Dims & i, int how) { return how == 0 ? a[i[0]][i[1]][i[2]][i[3]] : how == 1 ? a(i[0], i[1], i[2], i[3]) : how == 2 ? a(i[0], i[1], i[2])[i[3]] : ((const T *)(a[i[0]][i[1]][i[2]]))[i[3]]; }
	static size_t dim(const A & a, int k) { return a.GetSize(k); }
};

static size_t total(const Dims & d) { size_t t = 1; for (size_t x : d) t *= x; return t; }
static size_t padded(size_t n) { return (n + 7) / 8 * 8; }

// Reference: data lives in a buffer that may be shared with an external block.
template <typename T> struct Model {
	Dims d; bool attached, owns; DataType t; DataLocation l;
	std::shared_ptr<std::vector<T>> data;
	int ext;
};
template <typename T> static T small(Src & s) { return (T)s.irange(-9, 9); }

template <int D, typename T> static void arrayOps(Src & s, Ctx & c) {
	typedef Ad<D, T> X; typedef typename X::A A; typedef Model<T> M;
	const int N = 3, NE = 2;
	std::vector<DataType> tys = { DataType_Default, DataType_State, DataType_Tracers, DataType_Auxiliary2D };
	std::vector<DataLocation> locs = { DataLocation_Default, DataLocation_Node, DataLocation_REdge };
	std::unique_ptr<A> a[N]; M m[N];
	auto rdims = [&]() { Dims d(D); for (auto & x : d) x = (size_t)s.irange(1, D < 3 ? 7 : 4); return d; };
	// external blocks big enough for any shape
	size_t nMax = padded((D < 3 ? 49 : 256) * sizeof(T));
	std::unique_ptr<unsigned char[]> ext[NE]; std::shared_ptr<std::vector<T>> mext[NE];
	for (int e = 0; e < NE; e++) { ext[e].reset(new unsigned char[nMax]); memset(ext[e].get(), 0, nMax); mext[e] = std::make_shared<std::vector<T>>(nMax / sizeof(T), (T)0); }
	for (int i = 0; i < N; i++) {
		bool fSized = s.coin(); m[i].t = s.pick(tys); m[i].l = s.pick(locs); m[i].ext = -1; m[i].owns = true; m[i].attached = false; m[i].d = Dims(D, 0);
		if (fSized) {
			m[i].d = rdims(); bool fA = s.coin();
			a[i].reset(X::make(m[i].d, m[i].t, m[i].l, fA)); m[i].attached = fA;
			if (fA) m[i].data = std::make_shared<std::vector<T>>(total(m[i].d), (T)0);
		} else a[i].reset(new A(m[i].t, m[i].l));
	}
	int nOps = (int)s.irange(1, c.nTier ? 60 : 25), nReal = 0;
	c.desc("%dD size %zu:", D, sizeof(T));
	auto compare = [&](int i) {
		const A & x = *a[i]; M & q = m[i];
		c.check(x.IsAttached() == q.attached, "attached", "array %d attached state", i);
		for (int k = 0; k < D; k++) c.check(X::dim(x, k) == q.d[k], "dims", "dimension %d of array %d is %zu, expected %zu", k, i, X::dim(x, k), q.d[k]);
		c.check(x.GetTotalSize() == total(q.d), "totalsize", "total size");
		c.check(x.GetByteSize() == padded(total(q.d) * sizeof(T)), "bytesize", "byte size %zu for %zu entries", x.GetByteSize(), total(q.d));
		c.check(x.GetDataType() == q.t && x.GetDataLocation() == q.l, "type", "type or location of array %d", i);
		if (!q.attached || total(q.d) == 0) return;
		Dims ix(D, 0); size_t lin = 0; const T * p0 = &X::cat(x, ix, 1);
		do {
			for (int how = 0; how < (D == 1 ? 3 : 4); how++) {
				const T & v = X::cat(x, ix, how); T & w = X::at(*a[i], ix, how);
				c.check(&v == p0 + lin && &w == p0 + lin, "layout", "element %zu of array %d is not stored row by row (accessor %d)", lin, i, how);
			}
			c.check(p0[lin] == (*q.data)[lin], "content", "element %zu of array %d is %g, expected %g", lin, i, (double)p0[lin], (double)(*q.data)[lin]);
			lin++;
			int k = D - 1; while (k >= 0 && ++ix[k] == q.d[k]) ix[k--] = 0;
			if (k < 0) break;
		} while (true);
		if (q.ext >= 0) c.check((unsigned char *)p0 == ext[q.ext].get(), "attach", "attached array does not use the given memory");
	};
	auto expect = [&](bool fThrow, const char * what, std::function<void()> f) {
		bool threw = false; try { f(); } catch (Exception &) { threw = true; }
		c.check(threw == fThrow, fThrow ? "misuse" : "refused", "%s %s", what, fThrow ? "accepted although it is a misuse" : "refused");
		return !threw;
	};
	for (int o = 0; o < nOps; o++) {
		int i = (int)s.draw(N - 1), j = (int)s.draw(N - 1);
		M & q = m[i]; A & x = *a[i];
		int op = (int)s.weighted({ 6, 3, 8, 6, 6, 3, 3, 4, 4, 3, 3, 2 });
		switch (op) {
		case 0: { // Allocate, zero keeps the size
			Dims d = rdims(), e = q.d; for (int k = 0; k < D; k++) { if (s.coin(1, 4)) d[k] = 0; if (d[k]) e[k] = d[k]; }
			bool bad = !q.owns || total(e) == 0;
			c.desc(" alloc%d", i);
			if (expect(bad, "Allocate", [&]() { X::alloc(x, d); })) { q.d = e; q.attached = true; q.ext = -1; q.data = std::make_shared<std::vector<T>>(total(e), (T)0); nReal++; }
			break; }
		case 1: { Dims d = rdims(); c.desc(" size%d", i); if (expect(q.attached, "SetSize", [&]() { X::resize(x, d); })) q.d = d; break; }
		case 2: { // write some elements through random accessors
			if (!q.attached) break;
			c.desc(" w%d", i);
			for (int n = (int)s.irange(1, 6); n > 0; n--) {
				Dims ix(D); size_t lin = 0; for (int k = 0; k < D; k++) { ix[k] = s.draw(q.d[k] - 1); lin = lin * q.d[k] + ix[k]; }
				T v = small<T>(s); X::at(x, ix, (int)s.draw(D == 1 ? 2 : 3)) = v; (*q.data)[lin] = v; nReal++;
			}
			break; }
		case 3: { // Assign or operator=, including self
			c.desc(" %d=%d", i, j); M & r = m[j];
			bool bad;
			if (!r.attached) bad = q.attached;
			else bad = q.attached && !q.owns && (q.d != r.d || q.t != r.t || q.l != r.l);
			bool fOp = s.coin();
			if (q.attached && r.attached && i != j && q.ext >= 0 && q.ext == r.ext) break;  // overlapping memory
			if (expect(bad, "assignment", [&]() { if (fOp) x = *a[j]; else x.Assign(*a[j]); })) {
				bool fNew = r.attached && (!q.attached || (q.owns && i != j));
				if (!r.attached || q.owns) { q.d = r.d; q.t = r.t; q.l = r.l; }
				if (r.attached) {
					std::vector<T> v(r.data->begin(), r.data->begin() + total(r.d));
					if (fNew) { q.attached = true; q.ext = -1; q.data = std::make_shared<std::vector<T>>(v); }
					else std::copy(v.begin(), v.end(), q.data->begin());
					nReal++;
					if (i == j) c.cls("self assignment");
				}
			}
			break; }
		case 4: { // copy construction replaces slot i by a copy of j
			c.desc(" %dc%d", i, j); if (i == j) break;
			a[i].reset(new A(*a[j])); M & r = m[j]; q = r; q.owns = true; q.ext = -1;
			if (r.attached) q.data = std::make_shared<std::vector<T>>(r.data->begin(), r.data->begin() + total(r.d));
			nReal++;
			break; }
		case 5: { c.desc(" zero%d", i); if (expect(!q.attached, "Zero", [&]() { x.Zero(); })) std::fill(q.data->begin(), q.data->begin() + total(q.d), (T)0); break; }
		case 6: { T v = (T)s.irange(-2, 2); c.desc(" scale%d", i); if (expect(!q.attached, "Scale", [&]() { x.Scale(v); })) { for (size_t k = 0; k < total(q.d); k++) (*q.data)[k] = (T)((*q.data)[k] * v); nReal++; } break; }
		case 7: { M & r = m[j]; T v = (T)s.irange(-2, 2); c.desc(" %d+=%d", i, j);
			bool bad = !q.attached || !r.attached || q.d != r.d;
			if (expect(bad, "AddProduct", [&]() { x.AddProduct(*a[j], v); })) { for (size_t k = 0; k < total(q.d); k++) (*q.data)[k] = (T)((*q.data)[k] + v * (*r.data)[k]); nReal++; }
			break; }
		case 8: { int e = (int)s.draw(NE - 1); if (total(q.d) == 0) break; c.desc(" attach%d", i);
			if (sizeof(T) < 8) { // padding bytes belong to the array, so sub-word arrays do not share a block
				bool fUsed = false; for (int k = 0; k < N; k++) if (k != i && m[k].ext == e) fUsed = true;
				if (fUsed) break;
				if (q.ext != e) memcpy(ext[e].get(), mext[e]->data(), nMax);
			}
			if (expect(q.attached, "AttachToData", [&]() { x.AttachToData(ext[e].get()); })) { q.attached = true; q.owns = false; q.ext = e; q.data = mext[e]; nReal++; }
			break; }
		case 9: c.desc(" det%d", i); x.Detach(); q.attached = false; q.owns = true; q.ext = -1; q.data.reset(); break;
		case 10: c.desc(" dealloc%d", i); if (expect(!q.owns, "Deallocate", [&]() { x.Deallocate(); })) { q.attached = false; q.data.reset(); q.ext = -1; } break;
		case 11: q.t = s.pick(tys); q.l = s.pick(locs); x.SetDataType(q.t); x.SetDataLocation(q.l); break;
		}
		for (int k = 0; k < N; k++) compare(k);
	}
	c.nontrivial(nReal >= 3);
}

// ---- DataStruct
template <typename T> static void structOps(Src & s, Ctx & c) {
	const int N = 2; DataStruct<T> * a[N]; bool att[N], own[N]; std::shared_ptr<T> d[N];
	std::unique_ptr<unsigned char[]> blk(new unsigned char[64]); memset(blk.get(), 0, 64); auto md = std::make_shared<T>((T)0);
	for (int i = 0; i < N; i++) { a[i] = new DataStruct<T>(); att[i] = false; own[i] = true; }
	struct G { DataStruct<T> ** a; ~G() { delete a[0]; delete a[1]; } } g = { a };
	auto expect = [&](bool fThrow, const char * what, std::function<void()> f) {
		bool threw = false; try { f(); } catch (Exception &) { threw = true; }
		c.check(threw == fThrow, fThrow ? "struct-misuse" : "struct-refused", "DataStruct %s %s", what, fThrow ? "accepted" : "refused"); return !threw; };
	int n = (int)s.irange(1, 25), real = 0; c.desc("struct %zu:", sizeof(T));
	for (int o = 0; o < n; o++) {
		int i = (int)s.draw(1), j = (int)s.draw(1); T v = small<T>(s);
		int op = (int)s.draw(8); c.desc(" %d(%d,%d)", op, i, j);
		switch (op) {
		case 0: if (expect(!own[i], "Allocate", [&]() { a[i]->Allocate(); })) { att[i] = true; d[i] = std::make_shared<T>((T)0); } break;
		case 1: if (expect(!att[i], "assignment of a value", [&]() { (*a[i]) = v; })) { *d[i] = v; real++; } break;
		case 2: { bool bad = !att[j] && att[i]; if (expect(bad, "assignment", [&]() { (*a[i]) = (*a[j]); }) && att[j]) { T w = *d[j]; if (!att[i]) { att[i] = true; own[i] = true; d[i] = std::make_shared<T>(w); } else *d[i] = w; real++; } break; }
		case 3: if (expect(!att[i], "Zero", [&]() { a[i]->Zero(); })) *d[i] = 0; break;
		case 4: if (expect(!att[i], "Scale", [&]() { a[i]->Scale((T)2); })) *d[i] = (T)(*d[i] * 2); break;
		case 5: if (expect(!att[i] || !att[j], "AddProduct", [&]() { a[i]->AddProduct(*a[j], (T)1); })) { T w = *d[j]; *d[i] = (T)(*d[i] + w); } break;
		case 6: if (expect(att[i], "AttachToData", [&]() { a[i]->AttachToData(blk.get()); })) { att[i] = true; own[i] = false; d[i] = md; real++; } break;
		case 7: a[i]->Detach(); att[i] = false; own[i] = true; d[i].reset(); break;
		case 8: if (expect(!own[i], "Deallocate", [&]() { a[i]->Deallocate(); })) { att[i] = false; d[i].reset(); } break;
		}
		for (int k = 0; k < N; k++) { c.check(a[k]->IsAttached() == att[k], "struct-attached", "attached"); c.check(a[k]->GetByteSize() == padded(sizeof(T)), "struct-bytes", "byte size"); if (att[k]) c.check((T)(*a[k]) == *d[k], "struct-content", "value %g expected %g", (double)(T)(*a[k]), (double)*d[k]); }
		if (att[i]) { DataStruct<T> cp(*a[i]); c.check((T)cp == *d[i] && cp.IsAttached(), "struct-copy", "copy"); }
	}
	c.nontrivial(real >= 2);
}

// ---- DataContainer
struct Chunk { int kind; Dims d; size_t n, esz, off; DataChunk * p; };
template <int D, typename T> static Chunk mk(Src & s, std::vector<std::shared_ptr<void>> & keep) {
	Chunk k; k.kind = D; k.d = Dims(D); for (auto & x : k.d) x = (size_t)s.irange(1, D < 3 ? 9 : 4);
	auto a = std::shared_ptr<typename Ad<D, T>::A>(Ad<D, T>::make(k.d, DataType_Default, DataLocation_Default, false));
	keep.push_back(a); k.p = a.get(); k.n = total(k.d); k.esz = sizeof(T); return k;
}
static unsigned char * base(const Chunk & k) {
	#define B(D, T) { auto * a = static_cast<typename Ad<D, T>::A *>(k.p); Dims z(D, 0); return (unsigned char *)&Ad<D, T>::at(*a, z, 1); }
	if (k.esz == 8) { if (k.kind == 1) B(1, double) if (k.kind == 2) B(2, double) if (k.kind == 3) B(3, double) B(4, double) }
	if (k.esz == 4) { if (k.kind == 1) B(1, int) if (k.kind == 2) B(2, int) if (k.kind == 3) B(3, int) B(4, int) }
	if (k.kind == 1) B(1, char) if (k.kind == 2) B(2, char) if (k.kind == 3) B(3, char) B(4, char)
}
static void container(Src & s, Ctx & c) {
	int n = (int)s.irange(0, 10);
	std::vector<std::shared_ptr<void>> keep; std::vector<Chunk> v;
	DataContainer dc; size_t tot = 0;
	c.desc("container of %d:", n);
	for (int i = 0; i < n; i++) {
		int kind = (int)s.irange(0, 4), ty = (int)s.draw(2);
		Chunk k;
		if (kind == 0) {
			if (ty == 0) { auto a = std::make_shared<DataStruct<double>>(); keep.push_back(a); k.p = a.get(); k.esz = 8; }
			else if (ty == 1) { auto a = std::make_shared<DataStruct<int>>(); keep.push_back(a); k.p = a.get(); k.esz = 4; }
			else { auto a = std::make_shared<DataStruct<char>>(); keep.push_back(a); k.p = a.get(); k.esz = 1; }
			k.kind = 0; k.n = 1;
		} else {
			#define K(D) k = ty == 0 ? mk<D, double>(s, keep) : ty == 1 ? mk<D, int>(s, keep) : mk<D, char>(s, keep)
			if (kind == 1) K(1); else if (kind == 2) K(2); else if (kind == 3) K(3); else K(4);
		}
		k.off = tot; tot += padded(k.n * k.esz);
		c.desc(" %d/%zu*%zu", k.kind, k.n, k.esz);
		size_t ix = dc.PushDataChunk(k.p); c.check((int)ix == i, "index", "chunk index %zu expected %d", ix, i);
		v.push_back(k);
	}
	c.nontrivial(n >= 2);
	c.check(dc.GetTotalByteSize() == tot, "total", "total byte size %zu expected %zu", dc.GetTotalByteSize(), tot);
	c.check(!dc.IsAttached(), "attached0", "attached before allocation");
	if (n == 0) return;
	dc.Allocate();
	c.check(dc.IsAttached(), "attached1", "not attached after allocation");
	unsigned char * p = dc.GetPointer();
	for (size_t i = 0; i < tot; i++) c.check(p[i] == 0, "zero", "byte %zu of a fresh container is %d", i, p[i]);
	for (size_t i = 0; i < v.size(); i++) { c.check(v[i].p->IsAttached(), "chunk-attached", "chunk %zu not attached", i); if (v[i].kind) c.check(base(v[i]) == p + v[i].off, "offset", "chunk %zu is not at its place in the block", i); }
	bool threw = false; try { dc.Allocate(); } catch (Exception &) { threw = true; } c.check(threw, "realloc", "second Allocate accepted");
	threw = false; try { dc.AttachTo(p); } catch (Exception &) { threw = true; } c.check(threw, "reattach", "AttachTo on attached container accepted");
	// write through the chunks, only the chunk's bytes change
	std::vector<unsigned char> img(tot, 0);
	for (size_t i = 0; i < v.size(); i++) {
		std::vector<unsigned char> w(v[i].n * v[i].esz); for (auto & b : w) b = (unsigned char)s.draw(255);
		if (v[i].kind == 0) {
			if (v[i].esz == 8) { double d; memcpy(&d, &w[0], 8); if (!(d == d)) { d = 1.5; memcpy(&w[0], &d, 8); } *static_cast<DataStruct<double> *>(v[i].p) = d; }
			else if (v[i].esz == 4) { int d; memcpy(&d, &w[0], 4); *static_cast<DataStruct<int> *>(v[i].p) = d; }
			else *static_cast<DataStruct<char> *>(v[i].p) = (char)w[0];
		} else memcpy(base(v[i]), &w[0], w.size());
		memcpy(&img[v[i].off], &w[0], w.size());
	}
	c.check(memcmp(p, &img[0], tot) == 0, "image", "block differs from what was written through the chunks");
	// a copy of the block attached elsewhere reproduces every chunk
	std::vector<unsigned char> copy(p, p + tot);
	bool fDet = s.coin(); if (fDet) dc.Detach(); else dc.Deallocate();
	c.check(!dc.IsAttached(), "detached", "attached after Detach");
	for (size_t i = 0; i < v.size(); i++) c.check(!v[i].p->IsAttached(), "chunk-detached", "chunk %zu still attached", i);
	dc.AttachTo(&copy[0]);
	c.check(dc.GetPointer() == &copy[0], "pointer", "container pointer");
	for (size_t i = 0; i < v.size(); i++) {
		if (v[i].kind) c.check(memcmp(base(v[i]), &img[v[i].off], v[i].n * v[i].esz) == 0, "reattach-content", "chunk %zu after attaching to a copy", i);
		else if (v[i].esz == 8) { double d; memcpy(&d, &img[v[i].off], 8); c.check((double)*static_cast<DataStruct<double> *>(v[i].p) == d, "reattach-struct", "struct %zu", i); }
		else if (v[i].esz == 4) { int d; memcpy(&d, &img[v[i].off], 4); c.check((int)*static_cast<DataStruct<int> *>(v[i].p) == d, "reattach-struct", "struct %zu", i); }
	}
	dc.Detach();
	c.check(memcmp(&copy[0], &img[0], tot) == 0, "external-intact", "detaching changed external memory");
	dc.Allocate();
	for (size_t i = 0; i < tot; i++) c.check(dc.GetPointer()[i] == 0, "zero2", "byte %zu not zero after reallocation", i);
	dc.Detach();
}
int main(int argc, char ** argv) {
	std::vector<Prop> p = {
		{ "array1d", arrayOps<1, double>, 0.6 }, { "array2d", arrayOps<2, double>, 1 }, { "array3d", arrayOps<3, double>, 0.6 }, { "array4d", arrayOps<4, double>, 0.4 },
		{ "array1i", arrayOps<1, int>, 0.3 }, { "array2i", arrayOps<2, int>, 0.3 }, { "array3c", arrayOps<3, char>, 0.3 }, { "array4i", arrayOps<4, int>, 0.2 }, { "array1c", arrayOps<1, char>, 0.3 }, { "array2c", arrayOps<2, char>, 0.2 },
		{ "structd", structOps<double>, 0.3 }, { "structi", structOps<int>, 0.3 },
		{ "container", container, 1 } };
	return run(argc, argv, p);
}
