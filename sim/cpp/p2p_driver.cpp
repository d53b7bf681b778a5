// Drives one exported point-to-point controller from standard input.  Copied
// next to the exported sources by sim/export.py and built by their Makefile.
#include "@HEADER@"
#include "@VEHICLE@"
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <string>

using namespace std;
using namespace @NS@;

struct Probe : public Point2Point {
    Probe(Vehicle* v, double a, double b, double c) : Point2Point(v, a, b, c) {}
    Probe(Vehicle* v, double a, double b, double c, int l) : Point2Point(v, a, b, c, l) {}
    void show(const char* n, const vector<double>& v){
        printf("%s", n);
        for (size_t k=0; k<v.size(); k++) printf(" %.17g", v[k]);
        printf("\n");
    }
    void state(){
        show("par", vector<double>(args["p"]));
        show("x0", vector<double>(args["x0"]));
        show("lbg", vector<double>(args["lbg"]));
        show("ubg", vector<double>(args["ubg"]));
        show("var", variables);
        printf("status %s\n", solver_output.c_str());
    }
    int samples(){ return trajectory_length; }
};

static vector<double> rd(int n){
    vector<double> v(n);
    for (int k=0; k<n; k++) cin >> v[k];
    return v;
}
static vector<double> rdn(){ int n; cin >> n; return rd(n); }

int main(){
    ios::sync_with_stdio(false);
    Holonomic* vehicle = NULL;
    Probe* p = NULL;
    string cmd;
    // what the controller prints itself must not mix with the protocol
    streambuf* out = cout.rdbuf();
    cout.rdbuf(cerr.rdbuf());
    (void) out;
    while (cin >> cmd){
        if (cmd == "init"){
            double Tu, Ts, T; int L, ideal, provide;
            cin >> Tu >> Ts >> T >> L >> ideal >> provide;
            delete p; delete vehicle;
            vehicle = new Holonomic();
            vehicle->setIdealPrediction(ideal);
            vehicle->setProvidePrediction(provide);
            p = L > 0 ? new Probe(vehicle, Tu, Ts, T, L) : new Probe(vehicle, Tu, Ts, T);
            printf("n_obs %d\nlength %d\n", p->n_obs, p->samples());
        } else if (cmd == "update"){
            int shift, L, no, plain;
            cin >> plain >> shift >> L;
            vector<double> x0 = rd(2), xT = rd(2);
            cin >> no;
            vector<obstacle_t> obs(no);
            for (int k=0; k<no; k++){
                obs[k].position = rd(2); obs[k].velocity = rd(2); obs[k].acceleration = rd(2);
                obs[k].checkpoints = rdn(); obs[k].radii = rdn(); obs[k].traj_coeffs = rdn();
                int a; cin >> a; obs[k].avoid = a;
            }
            // the rows behind those asked for must stay untouched
            vector<vector<double>> st(L+2, vector<double>(2, 777.)), in(L+2, vector<double>(2, 777.));
            bool ok = plain ? p->update(x0, xT, st, in, obs) : p->update(x0, xT, st, in, obs, shift);
            printf("ok %d\n", int(ok));
            vector<double> s, i;
            for (int k=0; k<L+2; k++) for (int j=0; j<2; j++){ s.push_back(st[k][j]); i.push_back(in[k][j]); }
            p->show("states", s);
            p->show("inputs", i);
            vector<double> c; p->getCoefficients(c);
            p->show("coeffs", c);
            p->state();
        } else if (cmd == "reset"){ p->reset(); }
        else if (cmd == "resetTime"){ p->resetTime(); }
        else if (cmd == "recover"){ p->recover(); }
        else if (cmd == "quit"){ break; }
        printf("end\n");
        fflush(stdout);
    }
    return 0;
}
