// Runs the run manager of the Python module without Python: one run per line of the file.
#include "RunManager.hh"
#include <fstream>
#include <iostream>
int main(int, char** argv)
{
    std::ifstream in(argv[1]);
    double dt, end, emax, lam, dur, waist, fraction, energy;
    std::string field, model, kind;
    int pairs, events, threads;
    RunManager rm;
    while (in >> dt >> end >> field >> emax >> lam >> dur >> waist >> model >> fraction >> pairs >> kind >> energy >> events >> threads)
    {
        rm.setTime(dt, end);
        rm.setField(field, emax, lam, dur, waist, 0.3, ThreeVector(0, 0, -2.998e8 * dur), ThreeVector(0, 0, 0));
        rm.setPhysics(model);
        rm.setSampleFraction(fraction);
        rm.usePairProduction(pairs != 0);
        rm.setGenerator(kind, "gaussian", energy, energy * 0.05, waist / 4, dur / 10, 0.01, ThreeVector(0, 0, 2.998e8 * dur), ThreeVector(0, 0, -1));
        rm.beamOn(events, threads);
    }
    std::cout << "done" << std::endl;
}
