// M06: sparse vectors and matrices behave as the dense ones.
#include "gp.hpp"
#include "SparseVector.hpp"
#include "SparseMatrix.hpp"
#include "SRIMatrix.hpp"
using namespace std;
using namespace gpstk;
using pbt::G;
typedef vector<vector<double> > DM;
typedef vector<double> DV;
typedef SparseMatrix<double> SM;
typedef SparseVector<double> SV;

static double val(G& g, int mode)
{
   if (mode == 0) return 0.5 * (double)g.range(-8, 8);     // exact arithmetic
   double a = 0.1 + 0.9 * g.unit();
   return g.flag() ? a : -a;
}
static DV genV(G& g, size_t n, double fill)
{
   DV v(n, 0.0);
   for (size_t i = 0; i < n; i++) if (g.flag(fill)) v[i] = val(g, 0);
   return v;
}
static DM genM(G& g, size_t r, size_t c, double fill)
{
   DM m(r, DV(c, 0.0));
   for (size_t i = 0; i < r; i++)
   {
      if (g.flag(0.25)) continue;                            // a zero row
      for (size_t j = 0; j < c; j++) if (g.flag(fill)) m[i][j] = val(g, 0);
   }
   return m;
}
static Matrix<double> toM(const DM& d, size_t r, size_t c)
{
   Matrix<double> m(r, c, 0.0);
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = d[i][j];
   return m;
}
static Vector<double> toV(const DV& d)
{
   Vector<double> v(d.size(), 0.0);
   for (size_t i = 0; i < d.size(); i++) v[i] = d[i];
   return v;
}
static string show(const DM& d)
{
   ostringstream o; o << "[";
   for (size_t i = 0; i < d.size(); i++) { if (i) o << ";"; for (size_t j = 0; j < d[i].size(); j++) o << (j ? " " : "") << d[i][j]; }
   o << "]"; return o.str();
}
static string show(const DV& d) { return show(DM(1, d)); }
template <class F> static bool throws(F f)
{
   try { f(); } catch (gpstk::Exception&) { return true; }
   return false;
}

// the whole visible state of a SparseVector equals the model
static void checkV(SV s, const DV& d, const string& w)
{
   REQUIRE(s.size() == d.size(), w << ": size " << s.size() << " want " << d.size());
   unsigned nz = 0; double sum = 0, mn = 0, mx = 0, mna = 0, mxa = 0, n2 = 0; bool first = true;
   for (size_t i = 0; i < d.size(); i++)
   {
      double x = s[i];
      REQUIRE(x == d[i], w << ": element " << i << " is " << x << " want " << d[i] << " of " << show(d));
      REQUIRE(s.isFilled(i) == (d[i] != 0), w << ": isFilled(" << i << ") wrong, value " << d[i]);
      if (d[i] == 0) continue;
      nz++; sum += d[i]; n2 += d[i]*d[i];
      double a = fabs(d[i]);
      if (first || d[i] < mn) mn = d[i];
      if (first || d[i] > mx) mx = d[i];
      if (first || a < mna) mna = a;
      if (first || a > mxa) mxa = a;
      first = false;
   }
   REQUIRE(s.datasize() == nz, w << ": datasize " << s.datasize() << " want " << nz << " of " << show(d));
   REQUIRE(s.isEmpty() == (nz == 0), w << ": isEmpty wrong");
   REQUIRE(gpstk::min(s) == mn && gpstk::max(s) == mx && minabs(s) == mna && maxabs(s) == mxa,
           w << ": min/max/minabs/maxabs " << gpstk::min(s) << " " << gpstk::max(s) << " " << minabs(s) << " " << maxabs(s) << " of " << show(d));
   REQUIRE(fabs(norm(s) - sqrt(n2)) <= 1e-12 * (1 + sqrt(n2)), w << ": norm " << norm(s) << " want " << sqrt(n2) << " of " << show(d));
   REQUIRE(s.sum(s) == sum, w << ": sum " << s.sum(s) << " want " << sum);
   Vector<double> v = s;
   REQUIRE(v.size() == d.size(), w << ": cast to Vector has size " << v.size());
   for (size_t i = 0; i < d.size(); i++) REQUIRE(v[i] == d[i], w << ": cast to Vector element " << i);
   if (!d.empty()) REQUIRE(s.density() == (double)nz / d.size(), w << ": density");
}
static void checkM(SM s, const DM& d, size_t r, size_t c, const string& w)
{
   REQUIRE(s.rows() == r && s.cols() == c && s.size() == r*c, w << ": dimension " << s.rows() << "x" << s.cols() << " want " << r << "x" << c);
   unsigned nz = 0; double mn = 0, mx = 0, mna = 0, mxa = 0; bool first = true;
   vector<unsigned> er, ec; vector<double> ev;
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++)
   {
      double x = s(i, j);
      REQUIRE(x == d[i][j], w << ": element (" << i << "," << j << ") is " << x << " want " << d[i][j] << " of " << show(d));
      REQUIRE(s.isFilled(i, j) == (d[i][j] != 0), w << ": isFilled(" << i << "," << j << ") wrong, value " << d[i][j]);
      if (d[i][j] == 0) continue;
      nz++; double v = d[i][j], a = fabs(v);
      er.push_back(i); ec.push_back(j); ev.push_back(v);
      if (first || v < mn) mn = v;
      if (first || v > mx) mx = v;
      if (first || a < mna) mna = a;
      if (first || a > mxa) mxa = a;
      first = false;
   }
   REQUIRE(s.datasize() == nz, w << ": datasize " << s.datasize() << " want " << nz << " of " << show(d));
   // isEmpty may need zeroize() before it says yes; it must not say yes otherwise
   if (nz) REQUIRE(!s.isEmpty(), w << ": isEmpty says yes for " << show(d));
   { SM t(s); t.zeroize(0.0); REQUIRE(t.isEmpty() == (nz == 0) && t.datasize() == nz, w << ": isEmpty wrong after zeroize for " << show(d)); }
   REQUIRE(gpstk::min(s) == mn && gpstk::max(s) == mx && minabs(s) == mna && maxabs(s) == mxa,
           w << ": min/max/minabs/maxabs " << gpstk::min(s) << " " << gpstk::max(s) << " " << minabs(s) << " " << maxabs(s) << " of " << show(d));
   vector<unsigned> fr, fc; vector<double> fv;
   s.flatten(fr, fc, fv);
   REQUIRE(fr == er && fc == ec && fv == ev, w << ": flatten differs for " << show(d));
   Matrix<double> m = s;
   REQUIRE(m.rows() == r && m.cols() == c, w << ": cast to Matrix has dimension " << m.rows() << "x" << m.cols());
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++)
      REQUIRE(m(i, j) == d[i][j], w << ": cast to Matrix (" << i << "," << j << ")");
   for (size_t i = 0; i < r; i++) checkV(s.rowCopy(i), d[i], w + ": rowCopy");
   for (size_t j = 0; j < c; j++)
   {
      DV col(r); for (size_t i = 0; i < r; i++) col[i] = d[i][j];
      checkV(s.colCopy(j), col, w + ": colCopy");
   }
   if (r == c) { DV dg(r); for (size_t i = 0; i < r; i++) dg[i] = d[i][i]; checkV(s.diagCopy(), dg, w + ": diagCopy"); }
}

static DM mul(const DM& a, const DM& b, size_t c)
{
   DM m(a.size(), DV(c, 0.0));
   for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < c; j++)
      for (size_t k = 0; k < b.size(); k++) m[i][j] += a[i][k]*b[k][j];
   return m;
}
static DM tr(const DM& a, size_t r, size_t c)
{
   DM m(c, DV(r, 0.0));
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m[j][i] = a[i][j];
   return m;
}

PROP(vector, 48000, 480000, "a history with at least 4 operations on a vector with non-zero elements")
{
   size_t n = g.range(1, 12);
   double fill = g.pick(vector<double>{0.1, 0.4, 0.9});
   DV d = genV(g, n, fill);
   SV s(toV(d));
   checkV(s, d, "construct");
   int ops = 0; ostringstream log;
   size_t steps = g.range(1, 14);
   for (size_t t = 0; t < steps; t++)
   {
      int op = g.below(16);
      n = d.size();
      if (n == 0) { n = g.range(1, 8); s.resize(n); d.assign(n, 0.0); }
      DV e = genV(g, n, fill);
      SV se(toV(e)); Vector<double> ve = toV(e);
      size_t i = g.below(n); double x = val(g, 0);
      log << " " << op << "(" << i << "," << x << "," << show(e) << ")";
      switch (op)
      {
         case 0: s[i] = x; d[i] = x; break;
         case 1: s[i] += x; d[i] += x; break;
         case 2: s[i] -= x; d[i] -= x; break;
         case 3: s[i] *= x; d[i] *= x; break;
         case 4: s += se; for (size_t k = 0; k < n; k++) d[k] += e[k]; break;
         case 5: s -= se; for (size_t k = 0; k < n; k++) d[k] -= e[k]; break;
         case 6: s += ve; for (size_t k = 0; k < n; k++) d[k] += e[k]; break;
         case 7: s -= ve; for (size_t k = 0; k < n; k++) d[k] -= e[k]; break;
         case 8: s *= x; for (size_t k = 0; k < n; k++) d[k] *= x; break;
         case 9:
            if (x == 0) REQUIRE(throws([&]{ s /= x; }), "division by zero accepted");
            else { x = pow(2.0, g.range(-3, 3)); s /= x; for (size_t k = 0; k < n; k++) d[k] /= x; }
            break;
         case 10: { size_t m = g.range(0, 14); s.resize(m); d.resize(m, 0.0); break; }
         case 11: { size_t m = g.range(0, n); s.truncate(m); for (size_t k = m; k < n; k++) d[k] = 0; break; }
         case 12: s = -s; for (auto& q : d) q = -q; break;
         case 13: s.addScaledSparseVector(x, se); for (size_t k = 0; k < n; k++) d[k] += x*e[k]; break;
         case 14:
         {
            double tol = 0.5 * g.range(0, 4);
            if (g.flag(0.2)) { s.zeroize(); tol = 1e-14; } else s.zeroize(tol);
            for (auto& q : d) if (fabs(q) <= tol) q = 0;
            break;
         }
         case 15: { size_t a = g.below(n), b = g.range(0, (long)(n-a)); s = SV(s, a, b); d = DV(d.begin()+a, d.begin()+a+b); break; }
      }
      bool big = false; for (auto q : d) if (fabs(q) > 1e6) big = true;
      checkV(s, d, "after" + log.str());
      ops++;
      if (big) break;
      // binary operations and products with another vector
      if (!d.empty())
      {
         n = d.size();
         DV f = genV(g, n, fill); SV sf(toV(f)); Vector<double> vf = toV(f), vd = toV(d);
         DV a(n), m(n), r(n); double dp = 0, nd = 0, nf = 0;
         for (size_t k = 0; k < n; k++) { a[k] = d[k]+f[k]; m[k] = d[k]-f[k]; r[k] = f[k]-d[k]; dp += d[k]*f[k]; nd += d[k]*d[k]; nf += f[k]*f[k]; }
         checkV(s + sf, a, "SV+SV"); checkV(s + vf, a, "SV+V"); checkV(vf + s, a, "V+SV");
         checkV(s - sf, m, "SV-SV"); checkV(s - vf, m, "SV-V"); checkV(vf - s, r, "V-SV");
         REQUIRE(dot(s, sf) == dp && dot(s, vf) == dp && dot(vf, s) == dp, "dot product of " << show(d) << " and " << show(f));
         size_t kb = g.range(0, (long)n), ke = g.range(0, (long)n); double dl = 0;
         for (size_t k = kb; k < ke && k < n; k++) dl += d[k]*f[k];
         REQUIRE(dot_lim(s, sf, kb, ke) == dl, "dot_lim(" << kb << "," << ke << ") of " << show(d) << " and " << show(f) << " is " << dot_lim(s, sf, kb, ke) << " want " << dl);
         if (nd == 0 || nf == 0) REQUIRE(throws([&]{ cosVec(s, sf); }) && throws([&]{ cosVec(s, vf); }), "cosVec of a zero vector accepted");
         else
         {
            double c = dp / sqrt(nd) / sqrt(nf);
            REQUIRE(fabs(cosVec(s, sf) - c) < 1e-12 && fabs(cosVec(s, vf) - c) < 1e-12 && fabs(cosVec(vf, s) - c) < 1e-12, "cosVec of " << show(d) << " and " << show(f));
         }
         SV w(n + 1); Vector<double> vw(n + 1, 0.0);
         REQUIRE(throws([&]{ s + w; }) && throws([&]{ s - w; }) && throws([&]{ dot(s, w); }) && throws([&]{ dot(s, vw); })
                 && throws([&]{ s += w; }) && throws([&]{ s -= vw; }) && throws([&]{ s.addScaledSparseVector(1.0, w); }) && throws([&]{ SV(s, 1, n); }),
                 "a length mismatch was accepted");
         checkV(s, d, "operand changed, after" + log.str());
      }
   }
   bool nz = false; for (auto q : d) if (q) nz = true;
   g.nontrivial(ops >= 4 && nz);
   g << log.str();
}

PROP(matrix, 40000, 360000, "a history with at least 4 operations on a matrix with non-zero elements and at least one zero row")
{
   size_t r = g.range(1, 7), c = g.range(1, 7);
   if (g.flag(0.3)) c = r;
   double fill = g.pick(vector<double>{0.15, 0.4, 0.9});
   DM d = genM(g, r, c, fill);
   SM s(toM(d, r, c));
   checkM(s, d, r, c, "construct " + show(d));
   int ops = 0; bool zrow = false; ostringstream log;
   size_t steps = g.range(1, 10);
   for (size_t t = 0; t < steps; t++)
   {
      int op = g.below(19);
      DM e = genM(g, r, c, fill);
      Matrix<double> me = toM(e, r, c); SM se(me);
      size_t i = g.below(r), j = g.below(c), i2 = g.below(r), j2 = g.below(c); double x = val(g, 0);
      log << " " << op << "(" << i << "," << j << "," << i2 << "," << j2 << "," << x << "," << show(e) << ")";
      auto each = [&](int sg) { for (size_t a = 0; a < r; a++) for (size_t b = 0; b < c; b++) d[a][b] += sg*e[a][b]; };
      switch (op)
      {
         case 0: s(i, j) = x; d[i][j] = x; break;
         case 1: s(i, j) += x; d[i][j] += x; break;
         case 2: s(i, j) -= x; d[i][j] -= x; break;
         case 3: s(i, j) *= x; d[i][j] *= x; break;
         case 4: s(i, j) = s(i2, j2); d[i][j] = d[i2][j2]; break;
         case 5: s += se; each(1); break;
         case 6: s -= se; each(-1); break;
         case 7: s += me; each(1); break;
         case 8: s -= me; each(-1); break;
         case 9: s *= x; for (auto& q : d) for (auto& p : q) p *= x; break;
         case 10:
            if (x == 0) REQUIRE(throws([&]{ s /= x; }), "division by zero accepted");
            else { x = pow(2.0, g.range(-3, 3)); s /= x; for (auto& q : d) for (auto& p : q) p /= x; }
            break;
         case 11: { size_t nr = g.range(1, 8), nc = g.range(1, 8); s.resize(nr, nc); d.resize(nr, DV(c, 0.0)); for (auto& q : d) q.resize(nc, 0.0); r = nr; c = nc; break; }
         case 12: s = -s; for (auto& q : d) for (auto& p : q) p = -p; break;
         case 13:
         {
            double tol = 0.5 * g.range(0, 4);
            if (g.flag(0.2)) { s.zeroize(); tol = 1e-14; } else s.zeroize(tol);
            for (auto& q : d) for (auto& p : q) if (fabs(p) <= tol) p = 0;
            break;
         }
         case 14: s.swapRows(i, i2); swap(d[i], d[i2]); break;
         case 15: s.swapCols(j, j2); for (auto& q : d) swap(q[j], q[j2]); break;
         case 16: s = transpose(s); d = tr(d, r, c); swap(r, c); break;
         case 17:
         {
            size_t nr = g.range(1, (long)(r-i)), nc = g.range(1, (long)(c-j));
            s = SM(s, i, j, nr, nc);
            DM f(nr, DV(nc)); for (size_t a = 0; a < nr; a++) for (size_t b = 0; b < nc; b++) f[a][b] = d[i+a][j+b];
            d = f; r = nr; c = nc; break;
         }
         case 18:
            if (g.flag() && c + e[0].size() <= 9) { s = s || se; for (size_t a = 0; a < r; a++) d[a].insert(d[a].end(), e[a].begin(), e[a].end()); c *= 2; }
            else { DV v = genV(g, r, fill); log << show(v); s = s || toV(v); for (size_t a = 0; a < r; a++) d[a].push_back(v[a]); c++; }
            break;
      }
      checkM(s, d, r, c, "after" + log.str());
      ops++;
      bool big = false;
      for (auto& q : d) { bool z = true; for (auto p : q) { if (p) z = false; if (fabs(p) > 1e6) big = true; } zrow |= z; }
      if (big) break;
   }
   bool nz = false; for (auto& q : d) for (auto p : q) if (p) nz = true;
   g.nontrivial(ops >= 4 && nz && zrow);
   g << log.str();
}

PROP(products, 32000, 300000, "both factors have non-zero elements and one has a zero row or column")
{
   size_t r = g.range(1, 7), n = g.range(1, 7), c = g.range(1, 7);
   double fill = g.pick(vector<double>{0.2, 0.5, 0.9});
   DM a = genM(g, r, n, fill), b = genM(g, n, c, fill), a2 = genM(g, r, n, fill);
   DV v = genV(g, n, fill), u = genV(g, r, fill);
   Matrix<double> ma = toM(a, r, n), mb = toM(b, n, c), ma2 = toM(a2, r, n);
   SM sa(ma), sb(mb), sa2(ma2);
   Vector<double> vv = toV(v), vu = toV(u); SV sv(vv), su(vu);
   string w = "A=" + show(a) + " B=" + show(b) + " v=" + show(v) + " u=" + show(u);
   g << w;
   DM p = mul(a, b, c);
   checkM(sa*sb, p, r, c, "SM*SM " + w);
   checkM(sa*mb, p, r, c, "SM*M " + w);
   checkM(ma*sb, p, r, c, "M*SM " + w);
   DV av(r, 0.0), ua(n, 0.0);
   for (size_t i = 0; i < r; i++) for (size_t k = 0; k < n; k++) { av[i] += a[i][k]*v[k]; ua[k] += u[i]*a[i][k]; }
   checkV(sa*sv, av, "SM*SV " + w); checkV(sa*vv, av, "SM*V " + w); checkV(ma*sv, av, "M*SV " + w);
   checkV(su*sa, ua, "SV*SM " + w); checkV(vu*sa, ua, "V*SM " + w); checkV(su*ma, ua, "SV*M " + w);
   DM at = tr(a, r, n);
   checkM(transpose(sa), at, n, r, "transpose " + w);
   checkM(matrixTimesTranspose(sa), mul(a, at, r), r, r, "matrixTimesTranspose " + w);
   DM sum = a, dif = a, rdif = a;
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < n; j++) { sum[i][j] += a2[i][j]; dif[i][j] -= a2[i][j]; rdif[i][j] = -dif[i][j]; }
   string w2 = "A=" + show(a) + " A2=" + show(a2);
   checkM(sa + sa2, sum, r, n, "SM+SM " + w2); checkM(sa + ma2, sum, r, n, "SM+M " + w2); checkM(ma2 + sa, sum, r, n, "M+SM " + w2);
   checkM(sa - sa2, dif, r, n, "SM-SM " + w2); checkM(sa - ma2, dif, r, n, "SM-M " + w2); checkM(ma2 - sa, rdif, r, n, "M-SM " + w2);
   // concatenation
   DM cat = a; for (size_t i = 0; i < r; i++) cat[i].insert(cat[i].end(), a2[i].begin(), a2[i].end());
   checkM(sa || sa2, cat, r, 2*n, "SM||SM " + w2);
   cat = a; for (size_t i = 0; i < r; i++) cat[i].push_back(u[i]);
   checkM(sa || vu, cat, r, n+1, "SM||V " + w);
   checkM(identSparse<double>(r), [&]{ DM m(r, DV(r, 0.0)); for (size_t i = 0; i < r; i++) m[i][i] = 1; return m; }(), r, r, "identSparse");
   // diagonal of a transform
   DM C = genM(g, n, n, 0.7); Vector<double> td = transformDiag(sa, toM(C, n, n));
   DM full = mul(mul(a, C, n), at, r);
   REQUIRE(td.size() == r, "transformDiag size");
   for (size_t i = 0; i < r; i++) REQUIRE(td[i] == full[i][i], "transformDiag(" << i << ") " << td[i] << " want " << full[i][i] << " P=" << show(a) << " C=" << show(C));
   // refusals
   SM bad(n+1, c); SV bv(n+1); SM badr(r+1, n);
   REQUIRE(throws([&]{ sa*bad; }) && throws([&]{ sa*bv; }) && throws([&]{ sa+badr; }) && throws([&]{ sa-badr; }) && throws([&]{ sa||badr; })
           && throws([&]{ SM q(sa); q += badr; }) && throws([&]{ SM q(sa); q -= badr; }) && throws([&]{ SM(sa, 0, 0, r+1, n); }) && throws([&]{ SM(sa, 0, 0, r, 0); })
           && throws([&]{ SM q(sa); q.swapRows(0, r); }) && throws([&]{ SM q(sa); q.swapCols(n, 0); }) && throws([&]{ transformDiag(sa, Matrix<double>(n+1, n+1, 1.0)); }),
           "a dimension mismatch was accepted");
   bool na = false, nb = false, z = false;
   for (auto& q : a) { bool e = true; for (auto x : q) if (x) { na = true; e = false; } z |= e; }
   for (auto& q : b) { bool e = true; for (auto x : q) if (x) { nb = true; e = false; } z |= e; }
   g.nontrivial(na && nb && z);
}

// maximum |X - Y|
static double diff(const SM& x, const DM& y)
{
   double m = 0;
   for (size_t i = 0; i < y.size(); i++) for (size_t j = 0; j < y[i].size(); j++) m = std::max(m, fabs((double)x(i, j) - y[i][j]));
   return m;
}
static DM toD(const SM& s)
{
   DM d(s.rows(), DV(s.cols(), 0.0));
   for (size_t i = 0; i < s.rows(); i++) for (size_t j = 0; j < s.cols(); j++) d[i][j] = s(i, j);
   return d;
}

PROP(inverse, 32000, 300000, "dimension at least 3 with an off-diagonal zero and an off-diagonal non-zero element")
{
   size_t n = g.range(1, 8);
   double fill = g.pick(vector<double>{0.2, 0.5, 1.0});
   DM a(n, DV(n, 0.0)); bool zo = false, no = false;
   for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) { if (g.flag(fill)) { a[i][j] = val(g, 1); no = true; } else zo = true; }
   for (size_t i = 0; i < n; i++) { double s = 0.5; for (size_t j = 0; j < n; j++) s += fabs(a[i][j]) + fabs(a[j][i]); a[i][i] = g.flag() ? s : -s; }
   DM I(n, DV(n, 0.0)); for (size_t i = 0; i < n; i++) I[i][i] = 1;
   // symmetric positive definite
   DM p = a; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { p[i][j] = i == j ? fabs(a[i][i])*2 : (a[i][j] + a[j][i]); }
   for (size_t i = 0; i < n; i++) { double s = 0.3; for (size_t j = 0; j < n; j++) if (j != i) s += fabs(p[i][j]); p[i][i] = s; }
   if (g.flag(0.5))
   {
      // rows exchanged, so that diagonal elements can be zero
      g.label("rows exchanged");
      vector<size_t> q(n); for (size_t i = 0; i < n; i++) q[i] = i;
      g.shuffle(q); DM b = a; for (size_t i = 0; i < n; i++) b[i] = a[q[i]];
      if (fill < 1 && g.flag(0.5)) { b = DM(n, DV(n, 0.0)); for (size_t i = 0; i < n; i++) b[i][q[i]] = 0.5 * g.range(1, 6) * (g.flag() ? 1 : -1); }
      a = b;
   }
   SM sa(toM(a, n, n)), sp(toM(p, n, n));
   g << "A=" << show(a) << " P=" << show(p);
   SM inv = gpstk::inverse(sa);
   REQUIRE(inv.rows() == n && inv.cols() == n, "inverse has dimension " << inv.rows() << "x" << inv.cols());
   double big = 0; for (auto& q : toD(inv)) for (auto x : q) big = std::max(big, fabs(x));
   double e1 = diff(sa*inv, I), e2 = diff(inv*sa, I);
   REQUIRE(e1 < 1e-6 && e2 < 1e-6, "A*inverse(A) differs from 1 by " << e1 << ", inverse(A)*A by " << e2 << " for " << show(a));
   SM L = lowerCholesky(sp), U = upperCholesky(sp);
   for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
   {
      double l = L(i, j), u = U(j, i);
      REQUIRE(l == u, "upperCholesky is not the transpose of lowerCholesky at " << i << "," << j);
      if (j > i) REQUIRE(l == 0, "lowerCholesky is not lower triangular at " << i << "," << j);
      if (i == j) REQUIRE(l > 0, "lowerCholesky has diagonal element " << l);
   }
   REQUIRE(L.rows() == n && L.cols() == n && U.rows() == n && U.cols() == n, "dimension of the Cholesky factors");
   REQUIRE(diff(L*transpose(L), p) < 1e-11*n*n, "L*transpose(L) differs from P by " << diff(L*transpose(L), p));
   double small = -1, large = -1;
   SM Li = inverseLT(L, &small, &large);
   REQUIRE(diff(L*Li, I) < 1e-10 && diff(Li*L, I) < 1e-10, "inverseLT: L*inverse differs from 1 by " << diff(L*Li, I));
   for (size_t i = 0; i < n; i++) for (size_t j = i+1; j < n; j++) REQUIRE((double)Li(i, j) == 0, "inverseLT is not lower triangular");
   double ws = L(0, 0), wl = L(0, 0);
   for (size_t i = 0; i < n; i++) { double x = fabs((double)L(i, i)); ws = std::min(ws, x); wl = std::max(wl, x); }
   REQUIRE(small == ws && large == wl, "inverseLT returned smallest " << small << " largest " << large << " want " << ws << " " << wl);
   SM pi = inverseViaCholesky(sp);
   REQUIRE(diff(sp*pi, I) < 1e-9, "P*inverseViaCholesky(P) differs from 1 by " << diff(sp*pi, I));
   // refusals
   SM ns(n, n+1); ns(0, 0) = 1.0;
   REQUIRE(throws([&]{ gpstk::inverse(ns); }) && throws([&]{ lowerCholesky(ns); }) && throws([&]{ inverseLT(ns); }) && throws([&]{ inverseViaCholesky(ns); }), "a matrix that is not square was accepted");
   size_t k = g.below(n); DM z = a, zc = a, np = p, zl = toD(L);
   for (size_t i = 0; i < n; i++) { z[k][i] = 0; zc[i][k] = 0; }
   np[k][k] = -np[k][k]; zl[k][k] = 0;
   SM sz(toM(z, n, n)), szc(toM(zc, n, n)), snp(toM(np, n, n)), szl(toM(zl, n, n));
   REQUIRE(throws([&]{ gpstk::inverse(sz); }), "inverse accepted a matrix with a zero row: " << show(z));
   REQUIRE(throws([&]{ gpstk::inverse(szc); }), "inverse accepted a matrix with a zero column: " << show(zc));
   REQUIRE(throws([&]{ lowerCholesky(snp); }), "lowerCholesky accepted a matrix with a negative diagonal element: " << show(np));
   REQUIRE(throws([&]{ inverseLT(szl); }), "inverseLT accepted a zero diagonal element: " << show(zl));
   g.nontrivial(n >= 3 && zo && no);
}

PROP(householder, 32000, 300000, "at least 3 columns with a zero and a non-zero element below the diagonal")
{
   size_t r = g.range(1, 8), c = g.range(1, 8);
   double fill = g.pick(vector<double>{0.25, 0.6, 1.0});
   DM a(r, DV(c, 0.0)); bool zo = false, no = false;
   for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { if (g.flag(fill)) a[i][j] = val(g, g.below(2)); if (i > j) { if (a[i][j]) no = true; else zo = true; } }
   SM h = SparseHouseholder(SM(toM(a, r, c)));
   g << "A=" << show(a);
   REQUIRE(h.rows() == r && h.cols() == c, "dimension of the Householder transform " << h.rows() << "x" << h.cols());
   // an orthogonal transformation keeps the products of the columns
   DM x = toD(h), gx = mul(tr(x, r, c), x, c), ga = mul(tr(a, r, c), a, c);
   double m = 0; for (size_t i = 0; i < c; i++) for (size_t j = 0; j < c; j++) m = std::max(m, fabs(gx[i][j] - ga[i][j]));
   REQUIRE(m < 1e-10, "the Householder transform changes the products of the columns by " << m << " A=" << show(a) << " T=" << show(x));
   for (size_t j = 0; j + 1 < c && j + 1 < r; j++) for (size_t i = j+1; i < r; i++)
      REQUIRE(fabs(x[i][j]) < 1e-9, "element (" << i << "," << j << ") below the diagonal is " << x[i][j] << " A=" << show(a) << " T=" << show(x));
   g.nontrivial(c >= 3 && zo && no);
}

// measurement update with sparse partials against the normal equations and the
// dense version
PROP(update, 32000, 300000, "at least 2 states, at least 2 measurements and a zero among the partials")
{
   size_t n = g.range(1, 6), m = g.range(1, 8);
   double fill = g.pick(vector<double>{0.3, 0.6, 1.0});
   bool prior = g.flag(0.7), zdata = g.flag(0.1), over = g.flag(0.5);
   DM R(n, DV(n, 0.0)), H(m, DV(n, 0.0)); DV Z(n, 0.0), D(m, 0.0); bool zo = false;
   if (prior) for (size_t i = 0; i < n; i++)
   {
      for (size_t j = i; j < n; j++) if (i == j || g.flag()) R[i][j] = val(g, 1);
      Z[i] = val(g, 1);
   }
   for (size_t i = 0; i < m; i++)
   {
      bool zr = g.flag(0.1);
      for (size_t j = 0; j < n; j++) if (!zr && g.flag(fill)) H[i][j] = val(g, 1); else zo = true;
      if (!zdata && !g.flag(0.15)) D[i] = 3 * val(g, 1);
   }
   size_t M = over ? 0 : g.range(1, (long)m), used = M ? M : m;
   g << "R=" << show(R) << " Z=" << show(Z) << " H=" << show(H) << " D=" << show(D) << " M=" << M;
   // expected information matrix and vector
   DM info(n, DV(n, 0.0)); DV iv(n, 0.0);
   for (size_t i = 0; i < n; i++)
   {
      for (size_t j = 0; j < n; j++) { for (size_t k = 0; k < n; k++) info[i][j] += R[k][i]*R[k][j]; for (size_t k = 0; k < used; k++) info[i][j] += H[k][i]*H[k][j]; }
      for (size_t k = 0; k < n; k++) iv[i] += R[k][i]*Z[k];
      for (size_t k = 0; k < used; k++) iv[i] += H[k][i]*D[k];
   }
   double q0 = 0; for (auto z : Z) q0 += z*z; for (size_t k = 0; k < used; k++) q0 += D[k]*D[k];
   for (int form = 0; form < 4; form++)
   {
      Matrix<double> r = toM(R, n, n); Vector<double> z = toV(Z), d = toV(D);
      if (!prior && g.flag()) { r = Matrix<double>(); z = Vector<double>(); }
      Matrix<double> h = toM(H, m, n);
      if (form == 0) { SM A(SM(h) || d); SrifMU(r, z, A, M); d = Vector<double>(A.colCopy(n)); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { double x = A(i,j); (void)x; } }
      else if (form == 1) { SM P(h); SrifMU(r, z, P, d, M); }
      else if (form == 2) { Matrix<double> A = h || d; SrifMU(r, z, A, M); d = A.colCopy(n); }
      else { SrifMU(r, z, h, d, M); }
      string w = form == 0 ? "sparse H||D" : form == 1 ? "sparse H, D" : form == 2 ? "dense H||D" : "dense H, D";
      REQUIRE(r.rows() == n && r.cols() == n && z.size() == n && d.size() >= used, w << ": dimension of the result");
      double q1 = 0;
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
      {
         if (j < i) REQUIRE(r(i, j) == 0, w << ": R is not upper triangular at " << i << "," << j << ": " << r(i, j));
         double x = 0; for (size_t k = 0; k < n; k++) x += r(k, i)*r(k, j);
         REQUIRE(fabs(x - info[i][j]) < 1e-10 * (1 + fabs(info[i][j])), w << ": information(" << i << "," << j << ") " << x << " want " << info[i][j]);
      }
      for (size_t i = 0; i < n; i++)
      {
         double x = 0; for (size_t k = 0; k < n; k++) x += r(k, i)*z(k);
         REQUIRE(fabs(x - iv[i]) < 1e-9 * (1 + fabs(iv[i])), w << ": information vector(" << i << ") " << x << " want " << iv[i]);
         q1 += z(i)*z(i);
      }
      // the transformation is orthogonal: it keeps the sum of squares
      for (size_t k = 0; k < used; k++) q1 += d(k)*d(k);
      REQUIRE(fabs(q1 - q0) < 1e-9 * (1 + q0), w << ": |Z|^2+|residuals|^2 is " << q1 << " want " << q0);
      // rows beyond those used are left alone
      for (size_t k = used; k < m; k++) REQUIRE(d(k) == D[k], w << ": datum " << k << " beyond the first " << used << " changed from " << D[k] << " to " << d(k));
   }
   Matrix<double> r2(n+1, n+1, 1.0); Vector<double> z2(n+1, 1.0); SM A2(SM(toM(H, m, n)) || toV(D));
   REQUIRE(throws([&]{ SrifMU(r2, z2, A2); }), "SrifMU accepted inconsistent dimensions");
   g.nontrivial(n >= 2 && m >= 2 && zo);
}
PBT_MAIN
