#include "h.hpp"
#include <um2/common/logger.hpp>
#include <um2/common/settings.hpp>
#include <um2/mpact/model.hpp>
#include <um2/mpact/powers.hpp>
#include <um2.hpp>
#include <um2c.h>
#include <map>
#include <set>
#include <H5Cpp.h>
using namespace h;
using namespace um2;
using M = um2::mpact::Model;

static double U = 1, Z = 0.5;   // length units
static constexpr double XS = 1024;

static uint64_t hsh(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdULL; }
static uint64_t hd(double d) { uint64_t u; d += 0.0; memcpy(&u, &d, 8); return u; }
static std::string h31(uint64_t h) { return std::to_string((h >> 20) & 0x3fffffff); }
static std::string X(double d) { return sfx(d / U, 16); }

template <class T> static um2::Vector<T> vv(std::vector<int> const & a) { um2::Vector<T> r; for (int x : a) r.push_back(static_cast<T>(x)); return r; }
static um2::Vector<um2::Vector<Int>> rows(Tok & t)
{
  um2::Vector<um2::Vector<Int>> r;
  int const n = t.i();
  for (int i = 0; i < n; ++i) r.push_back(vv<Int>(t.vi()));
  return r;
}

// Material number n: macroscopic data.  xs(g) as given in eighths.
static Material mkMat(std::string const & name, std::vector<double> const & tot)
{
  Material m;
  m.setName(String(name.c_str()));
  m.setColor(blue);
  XSec x(static_cast<Int>(tot.size()));
  x.isMacro() = true;
  for (size_t g = 0; g < tot.size(); ++g) {
    Int const i = static_cast<Int>(g);
    x.a()[i] = tot[g] / 4;
    x.s()[i] = tot[g] - tot[g] / 4;
    x.ss()(i, i) = tot[g] - tot[g] / 4;
  }
  m.xsec() = x;
  return m;
}

template <Int P, Int N> static FaceVertexMesh<P, N> mkMesh(Tok & t)
{
  int const nv = t.i();
  um2::Vector<Point2F> v;
  for (int i = 0; i < nv; ++i) { double x = t.d() / 16, y = t.d() / 16; v.push_back(Point2F(x * U, y * U)); }
  int const nf = t.i();
  um2::Vector<Vec<N, Int>> f(nf);
  for (int i = 0; i < nf; ++i) for (int j = 0; j < N; ++j) f[i][j] = t.i();
  return FaceVertexMesh<P, N>(v, f);
}

template <Int P, Int N> static std::string meshOut(FaceVertexMesh<P, N> const & m, std::string & fp, bool full)
{
  uint64_t a = 1;
  for (auto const & p : m.vertices()) { a = hsh(a, hd(p[0])); a = hsh(a, hd(p[1])); }
  for (auto const & f : m.faceVertexConn()) for (Int j = 0; j < N; ++j) a = hsh(a, static_cast<uint64_t>(f[j]));
  fp = h31(a);
  bool const small = full || m.numVertices() <= 40;
  Obj o;
  o.i("nf", m.numFaces()).i("nv", m.numVertices());
  o.raw("v", arrn(small ? m.numVertices() : 0, [&](long i) { auto p = m.getVertex(static_cast<Int>(i)); return "[" + X(p[0]) + "," + X(p[1]) + "]"; }));
  o.raw("f", arrn(small ? m.numFaces() : 0, [&](long i) { auto f = m.faceVertexConn()[static_cast<Int>(i)]; return arrn(N, [&](long j) { return std::to_string(f[static_cast<Int>(j)]); }); }));
  return o.done();
}

static int mtype(MeshType t)
{
  switch (t) { case MeshType::Tri: return 3; case MeshType::Quad: return 4; case MeshType::QuadraticTri: return 6; case MeshType::QuadraticQuad: return 8; default: return 0; }
}
static MeshType mtypeOf(int t)
{
  switch (t) { case 3: return MeshType::Tri; case 4: return MeshType::Quad; case 6: return MeshType::QuadraticTri; case 8: return MeshType::QuadraticQuad; default: return MeshType::Invalid; }
}
template <class V> static std::string divs(V const & d, double unit, double sc) { return arr(d, [&](auto x) { return sfx(x / unit, sc); }); }

static std::string modelOut(M const & m, Obj & o, bool full = false)
{
  std::string fps = "[";
  auto addfp = [&](std::string const & s) { if (fps.size() > 1) fps += ","; fps += s; };
  std::string fp;
  o.raw("mats", arr(m.materials(), [&](Material const & x) {
    uint64_t a = 7;
    for (Int g = 0; g < x.xsec().numGroups(); ++g) a = hsh(a, hd(x.xsec().t(g)));
    for (auto d : x.xsec().a()) a = hsh(a, hd(d));
    addfp(h31(a));
    return jstr(std::string(x.getName().data(), static_cast<size_t>(x.getName().size())));
  }));
  auto ms = [&](char const * k, auto const & v) { o.raw(k, arr(v, [&](auto const & x) { std::string s = meshOut(x, fp, full); addfp(fp); return s; })); };
  ms("m3", m.triMeshes()); ms("m4", m.quadMeshes()); ms("m6", m.tri6Meshes()); ms("m8", m.quad8Meshes());
  o.raw("cells", arr(m.coarseCells(), [&](auto const & c) {
    Obj x; x.raw("e", "[" + X(c.xy_extents[0]) + "," + X(c.xy_extents[1]) + "]").i("t", mtype(c.mesh_type)).i("m", c.mesh_id).raw("ms", ints(c.material_ids)); return x.done(); }));
  auto rect = [&](auto const & r) {
    Obj x; x.raw("xd", divs(r.grid().divs(0), U, 16)).raw("yd", divs(r.grid().divs(1), U, 16)).raw("ch", ints(r.children())); return x.done(); };
  o.raw("rtms", arr(m.rtms(), rect));
  o.raw("lats", arr(m.lattices(), [&](auto const & r) {
    Obj x; auto const & g = r.grid();
    x.raw("n", "[" + std::to_string(g.numCells(0)) + "," + std::to_string(g.numCells(1)) + "]");
    x.raw("sp", "[" + X(g.spacing(0)) + "," + X(g.spacing(1)) + "]");
    x.raw("mn", "[" + X(g.minima(0)) + "," + X(g.minima(1)) + "]");
    x.raw("ch", ints(r.children())); return x.done(); }));
  o.raw("asys", arr(m.assemblies(), [&](auto const & r) { Obj x; x.raw("z", divs(r.grid().divs(0), Z, 2)).raw("ch", ints(r.children())); return x.done(); }));
  o.raw("core", rect(m.core()));
  o.raw("tot", "[" + std::to_string(m.numAssembliesTotal()) + "," + std::to_string(m.numLatticesTotal()) + "," + std::to_string(m.numRTMsTotal()) + "," + std::to_string(m.numCoarseCellsTotal()) + "," + std::to_string(m.numFineCellsTotal()) + "]");
  o.raw("cnt", "[" + std::to_string(m.numAssemblies()) + "," + std::to_string(m.numLattices()) + "," + std::to_string(m.numRTMs()) + "," + std::to_string(m.numCoarseCells()) + "]");
  o.raw("fp", fps + "]");
  return o.done();
}

static std::string S(String const & s) { return std::string(s.data(), static_cast<size_t>(s.size())); }

// The exported soup: elements as point lists, sets with members and data.
static std::string soupOut(PolytopeSoup const & s)
{
  Obj o;
  o.i("nv", s.numVertices());
  o.raw("el", arrn(s.numElements(), [&](long i) {
    VTKElemType ty; um2::Vector<Int> c; s.getElement(static_cast<Int>(i), ty, c);
    std::string r = "[" + std::to_string(c.size());
    for (auto v : c) { auto p = s.getVertex(v); r += "," + X(p[0]) + "," + X(p[1]) + "," + sfx(p[2] / Z, 4); }
    return r + "]"; }));
  o.raw("sets", arrn(s.numElsets(), [&](long i) {
    String n; um2::Vector<Int> ids; um2::Vector<Float> d; s.getElset(static_cast<Int>(i), n, ids, d);
    Obj x; std::string nm = S(n); x.str("n", nm).raw("i", ints(ids));
    double sc = nm == "Material_ID" ? 1 : nm == "Mean_Chord_Length" ? XS / U : nm == "Knudsen_Number" ? 65536 * U : 8192;
    x.raw("d", arr(d, [&](double v) { return sfx(v, sc); })); return x.done(); }));
  return o.done();
}

// A pin mesh relative to its box: see module Pin of the specification.
template <Int P, Int N> static std::string pinOut(FaceVertexMesh<P, N> const & m)
{
  double w = 0, hh = 0;
  for (auto const & p : m.vertices()) { w = std::max(w, double(p[0])); hh = std::max(hh, double(p[1])); }
  Obj o;
  o.raw("v", arr(m.vertices(), [&](auto const & p) {
    double const x = p[0] / w - 0.5, y = p[1] / hh - 0.5, rho = std::sqrt(x * x + y * y);
    double phi = std::atan2(y, x) / (2 * M_PI);
    if (rho < 1e-7) phi = 0;
    if (phi < -4e-7) phi += 1;
    return "[" + sfx(p[0] / w, 8192) + "," + sfx(p[1] / hh, 8192) + "," + sfx(rho, 1e6) + "," + sfx(phi, 1e6) + "]"; }));
  o.raw("f", arrn(m.numFaces(), [&](long i) { auto f = m.faceVertexConn()[static_cast<Int>(i)]; return arrn(N, [&](long j) { return std::to_string(f[static_cast<Int>(j)]); }); }));
  o.raw("ar", arrn(m.numFaces(), [&](long i) {
    auto f = m.faceVertexConn()[static_cast<Int>(i)];
    int const n = P == 1 ? N : N / 2;
    auto pt = [&](int j) { auto p = m.getVertex(f[j]); return std::pair<double, double>(p[0] / w, p[1] / hh); };
    double a = 0;
    for (int j = 0; j < n; ++j) {
      auto [x0, y0] = pt(j); auto [x1, y1] = pt((j + 1) % n);
      a += (x0 * y1 - x1 * y0) / 2;
      if (P == 2) { auto [xm, ym] = pt(n + j); a += ((xm - x0) * (y1 - y0) - (ym - y0) * (x1 - x0)) * 2 / 3; }
    }
    return sfx(a, 1e8); }));
  return o.done();
}

// Everything written next to the model file.
static std::vector<std::string> words(std::string const & l) { std::istringstream i(l); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
static void visit(H5::Group const & g, std::string const & name, std::vector<std::pair<std::string, std::map<std::string, std::vector<double>>>> & cells)
{
  std::map<std::string, std::vector<double>> d;
  for (hsize_t i = 0; i < g.getNumObjs(); ++i) {
    std::string const n = g.getObjnameByIdx(i);
    if (g.getObjTypeByIdx(i) == H5G_GROUP) visit(g.openGroup(n), n, cells);
    else { H5::DataSet ds = g.openDataSet(n); std::vector<double> v(static_cast<size_t>(ds.getSpace().getSimpleExtentNpoints())); if (!v.empty()) ds.read(v.data(), H5::PredType::NATIVE_DOUBLE); d[n] = v; }
  }
  if (name.rfind("Coarse_Cell_", 0) == 0) cells.push_back({name, d});
}
static void filesOut(M const & m, Obj & o, int kn, int xs, std::string const & base)
{
  m.write(String((base + ".xdmf").c_str()), kn != 0, xs != 0);
  auto lines = [&](char const * ext) { std::ifstream f(base + ext); std::vector<std::string> r; std::string l; while (std::getline(f, l)) r.push_back(l); return r; };
  auto num = [](std::string const & w) { return std::strtod(w.c_str(), nullptr); };
  o.raw("vol", arr(lines(".volumes"), [&](std::string const & l) { auto w = words(l); Obj x; x.str("n", w.at(0)).raw("v", sfx(num(w.at(1)) / (U * U * Z), 3072)); return x.done(); }));
  { auto L = lines(".xs"); Obj x; auto h0 = words(L.at(0)); x.raw("head", "[" + h0.at(0) + "," + h0.at(1) + "]");
    int const n = std::atoi(h0[0].c_str()), g = std::atoi(h0[1].c_str());
    x.raw("mats", arrn(n, [&](long i) { Obj y; size_t const p = 1 + static_cast<size_t>(i) * (g + 1); y.str("n", L.at(p));
      y.raw("v", arrn(g, [&](long j) { return arr(words(L.at(p + 1 + static_cast<size_t>(j))), [&](std::string const & w) { return sfx(num(w), 8); }); })); return y.done(); }));
    o.raw("xf", x.done()); }
  { auto L = lines(".input"); Obj x; x.str("base", base); std::string ms; std::string sect, name, cas, geom, ray = "0"; std::string z, nd; int cnt = 0; std::string head;
    auto endMat = [&]() { if (head.empty()) return; ms += (ms.empty() ? "" : ",") + ("{" + head + ",\"z\":[" + z + "],\"nd\":[" + nd + "]}"); head.clear(); z.clear(); nd.clear(); };
    for (auto & l : L) {
      auto w = words(l); if (w.empty()) continue;
      if (l[0] != ' ') { endMat(); sect = w[0]; if (sect == "CASEID") cas = w.at(1); continue; }
      if (sect == "MATERIAL") {
        size_t q = 0;
        if (w[0] == "!") { endMat(); name = w.at(1); continue; }
        if (w[0] == "mat") { Obj y; y.raw("i", w.at(1)).str("n", name).raw("den", sfx(num(w.at(3)), 8)).raw("tmp", sfx(num(w.at(5)), 1)); head = y.s; ++cnt; q = 8; }
        if (w.size() >= q + 2) { z += (z.empty() ? "" : ",") + w[q]; nd += (nd.empty() ? "" : ",") + sfx(num(w[q + 1]), 8); }
      }
      if (sect == "GEOM" && w[0] != "um2_core") geom = w[0];
      if (sect == "OPTION" && w[0] == "ray") ray = sfx(num(w.at(1)) / U, 1024000);
    }
    endMat();
    x.str("caseid", cas).raw("mats", "[" + ms + "]").str("geom", geom).raw("ray", ray);
    o.raw("inp", x.done()); }
  { H5::H5File f((base + ".h5").c_str(), H5F_ACC_RDONLY); std::vector<std::pair<std::string, std::map<std::string, std::vector<double>>>> cells; visit(f.openGroup("/"), "", cells);
    auto vals = [&](std::map<std::string, std::vector<double>> & d, char const * n, double sc) { return arr(d[std::string(n) + "_data"], [&](double v) { return sfx(v, sc); }); };
    o.raw("cells5", arr(cells, [&](auto c) { Obj x; x.i("c", std::atoi(c.first.substr(12, 5).c_str()));
      auto & d = c.second;
      x.raw("mat", vals(d, "Material_ID", 1)).raw("a", vals(d, "One_Group_Avg_XS_a", 8192)).raw("f", vals(d, "One_Group_Avg_XS_f", 8192)).raw("s", vals(d, "One_Group_Avg_XS_s", 8192)).raw("t", vals(d, "One_Group_Avg_XS_t", 8192));
      x.raw("mcl", vals(d, "Mean_Chord_Length", XS / U)).raw("kn", vals(d, "Knudsen_Number", 65536 * U));
      int G = 0; char b[64]; auto nm = [&](int g) { snprintf(b, sizeof b, "Group_%05d_Total_XS", g); return b; };
      while (d.count(std::string(nm(G)) + "_data")) ++G;
      x.raw("g", arrn(G, [&](long g) { return vals(d, nm(static_cast<int>(g)), 8192); }));
      return x.done(); })); }
  auto v = m.getMeanChordLengths(); o.raw("mcl", arr(v, [&](double x) { return sfx(x / U, XS); }));
}

// ---- the C interface ----
// An array with guard values behind the part that may be written.
template <class T> struct Guarded {
  std::vector<T> v; size_t n;
  explicit Guarded(long k) : v(static_cast<size_t>(k) + 8, static_cast<T>(77)), n(static_cast<size_t>(k)) {}
  bool ok() const { for (size_t i = n; i < v.size(); ++i) if (v[i] != static_cast<T>(77)) return false; return true; }
};
static std::string cQuery(void * h)
{
  Obj o;
  bool guards = true;
  Int n[4] = {-5, -5, -5, -5};
  um2MPACTNumCoarseCells(h, n); um2MPACTNumRTMs(h, n + 1); um2MPACTNumLattices(h, n + 2); um2MPACTNumAssemblies(h, n + 3);
  o.raw("n", arrn(4, [&](long i) { return std::to_string(n[i]); }));
  auto grid = [&](Obj & x, Int nx, Int ny, auto get) {
    x.raw("n", "[" + std::to_string(nx) + "," + std::to_string(ny) + "]");
    x.raw("ch", arrn(nx * ny, [&](long i) { Int c = -7; get(static_cast<Int>(i) % nx, static_cast<Int>(i) / nx, &c); return std::to_string(c); }));
  };
  { Obj x; Int nx = 0, ny = 0; um2MPACTCoreNumCells(h, &nx, &ny); grid(x, nx, ny, [&](Int i, Int j, Int * c) { um2MPACTCoreGetChild(h, i, j, c); }); o.raw("core", x.done()); }
  o.raw("asys", arrn(n[3], [&](long a) {
    Obj x; Int k = 0; um2MPACTAssemblyNumCells(h, static_cast<Int>(a), &k);
    grid(x, k, 1, [&](Int i, Int, Int * c) { um2MPACTAssemblyGetChild(h, static_cast<Int>(a), i, c); });
    Guarded<Float> z(k); um2MPACTAssemblyHeights(h, static_cast<Int>(a), z.v.data()); guards = guards && z.ok();
    x.raw("z", arrn(k, [&](long i) { return sfx(z.v[static_cast<size_t>(i)] / Z, 2); }));
    return x.done(); }));
  o.raw("lats", arrn(n[2], [&](long a) {
    Obj x; Int nx = 0, ny = 0; um2MPACTLatticeNumCells(h, static_cast<Int>(a), &nx, &ny);
    grid(x, nx, ny, [&](Int i, Int j, Int * c) { um2MPACTLatticeGetChild(h, static_cast<Int>(a), i, j, c); });
    return x.done(); }));
  o.raw("rtms", arrn(n[1], [&](long a) {
    Obj x; Int nx = 0, ny = 0; um2MPACTRTMNumCells(h, static_cast<Int>(a), &nx, &ny);
    grid(x, nx, ny, [&](Int i, Int j, Int * c) { um2MPACTRTMGetChild(h, static_cast<Int>(a), i, j, c); });
    Float w = -1, e = -1; um2MPACTRTMWidth(h, static_cast<Int>(a), &w); um2MPACTRTMHeight(h, static_cast<Int>(a), &e);
    x.raw("e", "[" + X(w) + "," + X(e) + "]");
    return x.done(); }));
  o.raw("cells", arrn(n[0], [&](long a) {
    Int const c = static_cast<Int>(a);
    Obj x; Int nf = -1; um2MPACTCoarseCellNumFaces(h, c, &nf);
    Float w = -1, e = -1; um2MPACTCoarseCellWidth(h, c, &w); um2MPACTCoarseCellHeight(h, c, &e);
    x.i("nf", nf).raw("e", "[" + X(w) + "," + X(e) + "]");
    Guarded<Float> ar(nf); um2MPACTCoarseCellFaceAreas(h, c, ar.v.data()); guards = guards && ar.ok();
    x.raw("ar", arrn(nf, [&](long i) { return sfx(ar.v[static_cast<size_t>(i)] / (U * U), 512); }));
    Guarded<MatID> ms(nf); um2MPACTCoarseCellMaterialIDs(h, c, ms.v.data()); guards = guards && ms.ok();
    x.raw("ms", arrn(nf, [&](long i) { return std::to_string(static_cast<int>(ms.v[static_cast<size_t>(i)])); }));
    x.raw("cen", arrn(nf, [&](long i) { Float px = -99, py = -99; um2MPACTCoarseCellFaceCentroid(h, c, static_cast<Int>(i), &px, &py); return "[" + sfx(px / U, 16000) + "," + sfx(py / U, 16000) + "]"; }));
    Int ty = -1, nv = -1, nf2 = -1; Float * v = nullptr; Int * fv = nullptr;
    um2MPACTCoarseCellFaceData(h, c, &ty, &nv, &nf2, &v, &fv);
    int const k = mtype(static_cast<MeshType>(ty));
    x.i("t", k).i("nv", nv).i("nf2", nf2);
    x.raw("v", arrn(nv, [&](long i) { return "[" + X(v[2 * i]) + "," + X(v[2 * i + 1]) + "]"; }));
    x.raw("f", arrn(nf2, [&](long i) { return arrn(k, [&](long j) { return std::to_string(fv[k * i + j]); }); }));
    um2Free(v); um2Free(fv);
    return x.done(); }));
  auto heights = [&](char const * key, auto f) {
    Int k = -1; Int * ids = nullptr; Float * z = nullptr; f(h, &k, &ids, &z);
    o.raw(key, arrn(k, [&](long i) { return "[" + std::to_string(ids[i]) + "," + sfx(z[i] / Z, 2) + "]"; }));
    um2Free(ids); um2Free(z);
  };
  heights("hc", um2MPACTCoarseCellHeights); heights("hr", um2MPACTRTMHeights); heights("hl", um2MPACTLatticeHeights);
  int si = 0, sf = 0; um2SizeOfInt(&si); um2SizeOfFloat(&sf);
  void * p = nullptr; um2Malloc(&p, 64); memset(p, 5, 64); um2Free(p);
  o.i("sizes", si == sizeof(Int) && sf == sizeof(Float)).i("guards", guards);
  return o.done();
}

struct B {
  void * hd[4] = {nullptr, nullptr, nullptr, nullptr};
  double hu[4] = {1, 1, 1, 1}, hz[4] = {1, 1, 1, 1}; // units of the model behind a handle
  M m;
  bool clearFull = false;
  int ctr = 0;
  std::string step(Tok & t)
  {
    std::string const k = t.w();
    long ret = 0;
    logger::level = logger::levels::error;
    logger::exit_on_error = false;
    Obj o;
    if (k == "unit") { U = t.d(); Z = t.d(); }
    else if (k == "mat") { auto n = t.s(); auto x = t.vd(); for (auto & y : x) y /= 8; ret = m.addMaterial(mkMat(n, x)); }
    else if (k == "cyl" || k == "pincell") {
      double p = t.d() * U / 16; auto r = t.vd(); auto nr = t.vi(); int na = t.i(), ord = t.i();
      um2::Vector<Float> rr; for (double x : r) rr.push_back(x * U / 16);
      if (k == "cyl") ret = m.addCylindricalPinMesh(p, rr, vv<Int>(nr), na, ord);
      else {
        um2::Vector<Material> ms; int n = t.i();
        for (int i = 0; i < n; ++i) { Material x; x.setName(String(t.s().c_str())); ms.push_back(x); }
        ret = m.addCylindricalPinCell(p, rr, ms, vv<Int>(nr), na, ord);
      }
    }
    else if (k == "rect") { double w = t.d() * U / 16, hh = t.d() * U / 16; int nx = t.i(), ny = t.i(); ret = m.addRectangularPinMesh(Vec2F(w, hh), nx, ny); }
    else if (k == "mesh") {
      int ty = t.i();
      if (ty == 3) ret = m.addTriMesh(mkMesh<1, 3>(t));
      else if (ty == 4) ret = m.addQuadMesh(mkMesh<1, 4>(t));
      else if (ty == 6) ret = m.addTri6Mesh(mkMesh<2, 6>(t));
      else ret = m.addQuad8Mesh(mkMesh<2, 8>(t));
    }
    else if (k == "cell") {
      double w = t.d() * U / 16, hh = t.d() * U / 16; int ty = t.i(), id = t.i(); auto ms = t.vi();
      ret = m.addCoarseCell(Vec2F(w, hh), mtypeOf(ty), id, vv<MatID>(ms));
    }
    else if (k == "rtm") ret = m.addRTM(rows(t));
    else if (k == "lat") ret = m.addLattice(rows(t));
    else if (k == "asy") { auto l = t.vi(); auto z = t.vd(); um2::Vector<Float> zz; for (double x : z) zz.push_back(x * Z / 2); ret = m.addAssembly(vv<Int>(l), zz); }
    else if (k == "asy2d") { ret = m.addAssembly(vv<Int>(t.vi())); }
    else if (k == "core") ret = m.addCore(rows(t));
    else if (k == "grid") { double w = t.d() * U / 16, hh = t.d() * U / 16; int nx = t.i(), ny = t.i(); m.addCoarseGrid(Vec2F(w, hh), Vec2I(nx, ny)); }
    else if (k == "clear") m.clear();
    else if (k == "copy") { M c(m); m.clear(); m = c; }
    else if (k == "imp") {
      std::string const name = t.s(), text = t.s();
      { std::ofstream f(name); f << text; }
      cap.out(); cap.err();
      m.importCoarseCellMeshes(String(name.c_str()));
      o.i("err", countSub(cap.out(), "ERROR") + countSub(cap.err(), "ERROR"));
      return modelOut(m, o, true);
    }
    else if (k == "export") { o.raw("soup", soupOut(static_cast<PolytopeSoup>(m))); }
    else if (k == "pinq") { int ty = t.i(), id = t.i(); o.raw("pin", ty == 4 ? pinOut(m.quadMeshes()[id]) : pinOut(m.quad8Meshes()[id])); }
    else if (k == "matx") {
      Material x; x.setName(String(t.s().c_str())); x.setColor(red);
      int const G = t.i();
      XSec xs(G); xs.isMacro() = true;
      auto rd = [&](um2::Vector<Float> & v) { for (int g = 0; g < G; ++g) v[g] = t.d() / 8; };
      rd(xs.a()); rd(xs.f()); rd(xs.nuf()); rd(xs.tr());
      for (int g = 0; g < G; ++g) if (xs.f()[g] > 0) xs.isFissile() = true;
      for (int i = 0; i < G; ++i) for (int j = 0; j < G; ++j) { double v = t.d() / 8; xs.ss()(i, j) = v; xs.s()[j] += v; }
      x.xsec() = xs;
      x.setDensity(t.d() / 8); x.setTemperature(t.d());
      int const nz = t.i();
      for (int i = 0; i < nz; ++i) { int z = t.i(); double d = t.d() / 8; x.addNuclide(z, d); }
      ret = m.addMaterial(x);
    }
    else if (k == "homog") {
      int id = t.i();
      XSec x = m.getCoarseCellHomogenizedXSec(id);
      Obj q; auto v8 = [&](auto const & v) { return arr(v, [&](double y) { return sfx(y, 8192); }); };
      q.raw("a", v8(x.a())).raw("f", v8(x.f())).raw("nuf", v8(x.nuf())).raw("tr", v8(x.tr())).raw("s", v8(x.s()));
      q.raw("ss", arrn(x.numGroups(), [&](long i) { return arrn(x.numGroups(), [&](long j) { return sfx(x.ss()(static_cast<Int>(i), static_cast<Int>(j)), 8192); }); }));
      q.i("fis", x.isFissile()).i("macro", x.isMacro());
      o.raw("h", q.done());
    }
    else if (k == "wfiles") { int kn = t.i(), xs = t.i(); std::string base = t.s(); filesOut(m, o, kn, xs, base); }
    else if (k == "mcl") { auto v = m.getMeanChordLengths(); o.raw("mcl", arr(v, [&](double x) { return sfx(x / U, XS); })); }
    else if (k == "wr") {
      // write, then read into a new model; kn/xs data flags
      int kn = t.i(), xs = t.i(); std::string name = t.s();
      m.write(String(name.c_str()), kn != 0, xs != 0);
      if (t.p < t.t.size() && t.i() == 1) { M n2; n2.read(String(name.c_str())); n2.write(String(("b_" + name).c_str()), kn != 0, xs != 0); m = n2; M n3; n3.read(String(("b_" + name).c_str())); m = n3; }
      else { M n2(String(name.c_str())); m = n2; }
      ret = 0;
      Obj x;
      o.i("ret", ret);
      return modelOut(m, o, true);
    }
    else if (k == "make") { m.clear(); int const n = t.i(); for (int i = 0; i < n; ++i) (void)step(t); return "{}"; }
    else if (k == "cread") {
      int const i = t.i(); std::string const name = t.s();
      m.write(String(name.c_str()));
      um2ReadMPACTModel(name.c_str(), &hd[i]);
      hu[i] = U; hz[i] = Z;
      return "{}";
    }
    else if (k == "cnew") { um2NewMPACTModel(&hd[t.i()]); return "{}"; }
    else if (k == "cdel") { int const i = t.i(); um2DeleteMPACTModel(hd[i]); hd[i] = nullptr; return "{}"; }
    else if (k == "cq") {
      int const i = t.i(); double const u = U, z = Z;
      U = hu[i]; Z = hz[i]; std::string const r = cQuery(hd[i]); U = u; Z = z;
      return r;
    }
    else if (k == "cpt") {
      int const i = t.i(), c = t.i(); double const x = t.d() * hu[i] / 16, y = t.d() * hu[i] / 16; Int f = -9;
      um2MPACTCoarseCellFaceContaining(hd[i], c, x, y, &f);
      o.i("f", f); return o.done();
    }
    else if (k == "cray") {
      int const i = t.i(), c = t.i(); double const x = t.d() * hu[i] / 16, y = t.d() * hu[i] / 16, dx = t.d(), dy = t.d(), l = t.d();
      Guarded<Float> r(400); Int n = -9;
      um2MPACTIntersectCoarseCell(hd[i], c, x, y, dx / l, dy / l, r.v.data(), &n);
      o.raw("r", arrn(n, [&](long j) { return sfx(r.v[static_cast<size_t>(j)] / hu[i], 16000); }));
      return o.done();
    }
    else _exit(99);
    o.i("ret", ret);
    return modelOut(m, o);
  }
};
int main(int argc, char ** argv) { um2::initialize(); return drive<B>(argc, argv); }
