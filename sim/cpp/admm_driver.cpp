// Drives exported agents of a distributed problem from standard input.  Copied
// next to the exported sources by sim/export.py and built by their Makefile.
#include "@HEADER@"
#include "@VEHICLE@"
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <string>

using namespace std;
using namespace @NS@;

struct Probe : public @CLASS@ {
    Probe(Vehicle* v, double a, double b, double c, int l, int i, double r) : @CLASS@(v, a, b, c, l, i, r) {}
    Probe(Vehicle* v, double a, double b, double c) : @CLASS@(v, a, b, c) {}
    static void show(const char* n, const vector<double>& v){
        printf("%s", n);
        for (size_t k=0; k<v.size(); k++) printf(" %.17g", v[k]);
        printf("\n");
    }
    void state(){
        show("par", vector<double>(args["p"]));
        show("x0", vector<double>(args["x0"]));
        show("lbg", vector<double>(args["lbg"]));
        show("ubg", vector<double>(args["ubg"]));
        show("var", variables);
        printf("status %s\n", solver_output.c_str());
    }
    int samples(){ return trajectory_length; }
};

static vector<double> rd(int n){
    vector<double> v(n);
    for (int k=0; k<n; k++) cin >> v[k];
    return v;
}
static vector<double> rdn(){ int n; cin >> n; return rd(n); }
static vector<vector<double>> rdm(int r, int c){
    vector<vector<double>> m(r);
    for (int k=0; k<r; k++) m[k] = rd(c);
    return m;
}
static vector<double> flat(const vector<vector<double>>& m){
    vector<double> s;
    for (auto& r : m) s.insert(s.end(), r.begin(), r.end());
    return s;
}

int main(){
    ios::sync_with_stdio(false);
    vector<Holonomic*> vehicles;
    vector<Probe*> p;
    string cmd;
    cout.rdbuf(cerr.rdbuf());
    while (cin >> cmd){
        if (cmd == "init"){
            double Tu, Ts, T, rho; int N, L, init_iter, ideal, provide, short_form;
            cin >> N >> Tu >> Ts >> T >> L >> init_iter >> rho >> ideal >> provide >> short_form;
            for (auto q : p) delete q;
            for (auto q : vehicles) delete q;
            p.clear(); vehicles.clear();
            for (int v=0; v<N; v++){
                vehicles.push_back(new Holonomic());
                vehicles[v]->setIdealPrediction(ideal);
                vehicles[v]->setProvidePrediction(provide);
                p.push_back(short_form ? new Probe(vehicles[v], Tu, Ts, T) : new Probe(vehicles[v], Tu, Ts, T, L, init_iter, rho));
            }
            printf("length %d\nshared %d\n", p[0]->samples(), p[0]->n_shared);
        } else if (cmd == "update1"){
            int v, shift, L, no, plain, nn;
            cin >> v >> nn >> plain >> shift >> L;
            vector<double> x0 = rd(2), xT = rd(2), rel = rd(2);
            int ns = p[v]->n_shared;
            vector<vector<double>> z_ji = rdm(nn, ns), l_ji = rdm(nn, ns);
            cin >> no;
            vector<obstacle_t> obs(no);
            for (int k=0; k<no; k++){
                obs[k].position = rd(2); obs[k].velocity = rd(2); obs[k].acceleration = rd(2);
                obs[k].checkpoints = rdn(); obs[k].radii = rdn(); obs[k].traj_coeffs = rdn();
                int a; cin >> a; obs[k].avoid = a;
            }
            vector<vector<double>> st(L+2, vector<double>(2, 777.)), in(L+2, vector<double>(2, 777.));
            vector<double> x(ns, 777.);
            bool ok = plain ? p[v]->update1(x0, xT, st, in, x, z_ji, l_ji, obs, rel) : p[v]->update1(x0, xT, st, in, x, z_ji, l_ji, obs, rel, shift);
            printf("ok %d\n", int(ok));
            Probe::show("states", flat(st));
            Probe::show("inputs", flat(in));
            Probe::show("x", x);
            vector<double> c; p[v]->getCoefficients(c);
            Probe::show("coeffs", c);
            p[v]->state();
        } else if (cmd == "update2"){
            int v, nn; cin >> v >> nn;
            int ns = p[v]->n_shared;
            vector<vector<double>> x_j = rdm(nn, ns), z(nn, vector<double>(ns, 777.)), l(nn, vector<double>(ns, 777.));
            vector<double> res;
            bool ok = p[v]->update2(x_j, z, l, res);
            printf("ok %d\n", int(ok));
            Probe::show("z_ij", flat(z));
            Probe::show("l_ij", flat(l));
            Probe::show("res", res);
        } else if (cmd == "clock"){
            int v; cin >> v;
            printf("time %.17g\niteration %d\n", p[v]->getCurrentTime(), p[v]->getIteration());
        } else if (cmd == "reset"){ int v; cin >> v; p[v]->reset(); }
        else if (cmd == "resetTime"){ int v; cin >> v; p[v]->resetTime(); }
        else if (cmd == "quit"){ break; }
        printf("end\n");
        fflush(stdout);
    }
    return 0;
}
