// tables: lookups against an independent interpolation, tool paths, material property files
#include "rnd.h"
#include "matar.h"
#include "table.hpp"
#include "additive_data.hpp"
#include "tabular_material_model.hpp"
#include "read_abaqus_files.hpp"
#include <unistd.h>
using namespace mtr;
static double oracle(const std::vector<std::vector<double>> &d, double x, int dep, int ind) {
    if (d.empty()) return 0;
    if (x <= d[0][ind]) return d[0][dep];
    if (x >= d.back()[ind]) return d.back()[dep];
    size_t i = 0; while (!(d[i + 1][ind] >= x)) i++;
    long double a = ((long double)x - d[i][ind]) / ((long double)d[i + 1][ind] - d[i][ind]);
    return (double)((1 - a) * d[i][dep] + a * d[i + 1][dep]);
}
static std::string text(const std::vector<std::vector<double>> &d) { std::string r; for (auto &q : d) { for (double v : q) { char b[40]; snprintf(b, 40, "%.17g ", v); r += b; } r += "; "; } return r; }
static std::string cased(Rnd &r, std::string s) { int m = r.i(0, 2); for (auto &c : s) c = m == 0 ? toupper(c) : m == 1 ? tolower(c) : r.b() ? toupper(c) : tolower(c); return s; }
int main(int c, char **v) {
    Rnd r(atoi(v[1])); long N = atol(v[2]);
    for (long t = 0; t < N; t++) {
        g_cases++;
        int n = r.i(0, 12), w = r.i(2, 5), ind = r.i(0, w - 1);
        std::vector<std::vector<double>> d(n, std::vector<double>(w));
        double s = r.in(-5, 5); bool grid = r.b();
        for (auto &q : d) { for (auto &e : q) e = grid ? r.i(-3, 3) : r.in(-100, 100); q[ind] = s; s += r.i(0, 3) ? (grid ? r.i(1, 3) : r.in(1e-3, 5)) : 0; }
        Table_t T(n, w, "a table with a name that is much longer than the sixty-three characters kept in it");
        for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) T.set_value(i, j, d[i][j]);
        T.update_device(); if (n) T.verify_data(ind);
        if (strlen(T.name) != 63) FAILF("the table's name has %zu characters", strlen(T.name));
        for (int k = 0; k < 6; k++) {
            double x = k == 0 && n ? d[r.i(0, n - 1)][ind] : k == 1 ? -1e300 : k == 2 ? 1e300 : n ? r.in(d[0][ind] - 1, d[n - 1][ind] + 1) : r.in(-9, 9);
            int dep = r.i(0, w - 1); double want = oracle(d, x, dep, ind), a = T.linear_interpolation(x, dep, ind), b = T.linear_interpolation_host(x, dep, ind);
            if (!close_to(a, want, 1e-12)) { FAILF("device lookup of column %d at %.17g in column %d of table %s gives %.17g, expected %.17g", dep, x, ind, text(d).c_str(), a, want); break; }
            if (!close_to(b, want, 1e-12)) { FAILF("host lookup of column %d at %.17g in column %d of table %s gives %.17g, expected %.17g", dep, x, ind, text(d).c_str(), b, want); break; }
            if (n) { const double *y[3] = {0}; (void)y; double lo = 1e300, hi = -1e300; for (auto &q : d) { lo = std::min(lo, q[dep]); hi = std::max(hi, q[dep]); } if (!(a >= lo - 1e-9 && a <= hi + 1e-9)) FAILF("lookup at %.17g leaves the range of column %d of %s", x, dep, text(d).c_str()); }
        }
        // tool path
        int np = r.i(1, 6); ToolPathInfo P(np); std::vector<std::vector<double>> q(np, std::vector<double>(5)); double tm = r.in(-1, 1);
        for (int i = 0; i < np; i++) { q[i][0] = tm; for (int j = 1; j < 5; j++) q[i][j] = r.in(-50, 50); if (r.i(0, 3)) tm += r.in(.1, 2); P.set_data_point(i, q[i][0], q[i][1], q[i][2], q[i][3], q[i][4]); }
        P.update_device();
        double x, y, z, tt = r.b() ? q[r.i(0, np - 1)][0] : r.in(q[0][0] - 1, tm + 1); P.get_position(tt, x, y, z); double pw = P.get_power(tt), g[4] = {x, y, z, pw};
        for (int j = 0; j < 4; j++) if (!close_to(g[j], oracle(q, tt, j + 1, 0), 1e-12)) { FAILF("tool %s at time %.17g of path %s is %.17g, expected %.17g", j < 3 ? "position" : "power", tt, text(q).c_str(), g[j], oracle(q, tt, j + 1, 0)); break; }
        // material tables
        if (n && w >= 2) {
            Table_t M(n, 2, "m"); std::vector<std::vector<double>> md(n, std::vector<double>(2)); for (int i = 0; i < n; i++) { md[i][0] = d[i][ind]; md[i][1] = d[i][(ind + 1) % w]; M.set_value(i, 0, md[i][0]); M.set_value(i, 1, md[i][1]); }
            double te = r.in(md[0][0] - 1, md[n - 1][0] + 1), want = oracle(md, te, 1, 0);
            if (!close_to(TabularMaterialModel::get_density_from_temperature(M, te), want, 1e-12) || !close_to(TabularMaterialModel::get_thermal_conductivity_from_temperature(M, te), want, 1e-12) || !close_to(TabularMaterialModel::get_specific_heat_from_temperature(M, te), want, 1e-12)) FAILF("a material property at %.17g of table %s is not %.17g", te, text(md).c_str(), want);
        }
        if (t % 20 == 0) {    // a property file
            struct Blk { std::string key, req; std::vector<std::vector<double>> d; };
            std::vector<Blk> B; const char *keys[5][2] = {{"*Density", "density"}, {"*Conductivity", "thermal_conductivity"}, {"*Specific Heat", "specific_heat"}, {"*Elastic, type=isotropic", "elastic"}, {"*Expansion", "expansion"}};
            for (int k = 0; k < 5; k++) if (r.i(0, 4)) { Blk b; b.key = keys[k][0]; b.req = keys[k][1]; int cols = k == 3 ? 3 : 2; double s = r.in(-100, 100); for (int i = r.i(1, 6); i > 0; i--) { std::vector<double> row; for (int j = 1; j < cols; j++) row.push_back(r.in(-1e3, 1e3)); row.push_back(s); s += r.i(0, 3) ? r.in(1e-3, 200) : 0; b.d.push_back(row); } B.push_back(b); }
            for (int i = (int)B.size() - 1; i > 0; i--) std::swap(B[i], B[r.i(0, i)]);
            std::string f = "** written by a material database\n*Material, name=M1\n"; bool dos = r.i(0, 3) == 0;
            for (auto &b : B) { f += std::string(r.i(0, 2), ' ') + cased(r, b.key) + (r.i(0, 3) ? "" : ", dependencies=0") + "\n"; for (auto &row : b.d) { if (r.i(0, 4) == 0) f += r.b() ? "** a note, 1, 2\n" : "\n"; f += std::string(r.i(0, 2), ' '); for (size_t j = 0; j < row.size(); j++) { char q[64]; snprintf(q, 64, "%s%.17g", j ? (r.b() ? ", " : ",") : "", row[j]); f += q; } f += (r.i(0, 4) ? "" : ",") + std::string("\n"); } }
            if (!B.empty() && r.i(0, 2) == 0) { f += "*Material, name=M2\n"; int k = r.i(0, (int)B.size() - 1); f += B[k].key + "\n"; for (int i = 0; i < 2; i++) { for (size_t j = 0; j < B[k].d[0].size(); j++) f += j ? ", 3" : "5"; f += "\n"; } }    // a second material: the first block counts
            if (r.b()) f += "*End\n"; if (dos) { std::string g; for (char ch : f) { if (ch == '\n') g += '\r'; g += ch; } f = g; }
            FILE *o = fopen("m.inp", "w"); fwrite(f.data(), 1, f.size(), o); fclose(o);
            for (int k = 0; k < 5; k++) {
                const Blk *b = nullptr; for (auto &q : B) if (q.req == keys[k][1]) b = &q;
                Table_t R; bool threw = false; try { AbaqusReader::read_tabular_jmatpro_file("m.inp", k == 2 && r.b() ? "Specific Heat" : keys[k][1], R); } catch (const std::exception &) { threw = true; }
                if (threw != !b) { FAILF("the file's %s block is %s but the reader %s", keys[k][1], b ? "present" : "missing", threw ? "reports an error" : "reports none"); continue; }
                if (!b) continue;
                bool ok = R.num_rows == b->d.size() && R.num_columns == b->d[0].size();
                for (size_t i = 0; ok && i < R.num_rows; i++) for (size_t j = 0; ok && j < R.num_columns; j++) ok = R.data(i, j) == b->d[i][R.num_columns - 1 - j] && R.data.host(i, j) == R.data(i, j);
                if (!ok) { std::string got; for (size_t i = 0; i < R.num_rows; i++) { for (size_t j = 0; j < R.num_columns; j++) { char q[40]; snprintf(q, 40, "%.17g ", (double)R.data(i, j)); got += q; } got += "; "; } FAILF("the %s block %s (value, temperature) was read as %s (temperature, value)", keys[k][1], text(b->d).c_str(), got.c_str()); }
            }
            if (!B.empty() && r.b()) { auto &b = B[0]; o = fopen("m.inp", "w"); fprintf(o, "%s\n1,2\n1,2,3\n", b.key.c_str()); fclose(o); Table_t R; bool threw = false; try { AbaqusReader::read_tabular_jmatpro_file("m.inp", b.req, R); } catch (const std::exception &) { threw = true; } if (!threw) FAILF("a %s block with rows of different length is accepted", b.req.c_str()); }
            bool threw = false; Table_t R; try { AbaqusReader::read_tabular_jmatpro_file("not there.inp", "density", R); } catch (const std::exception &) { threw = true; } if (!threw) FAILF("a missing file is accepted%s", "");
        }
    }
    return DONE();
}
