// Dumps an HDF5 file as JSON: {"/path": {"dims": [...], "data": [...]}, "/group": null}
#include <hdf5.h>
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
static bool first = true;
static herr_t visit(hid_t f, const char* name, const H5O_info_t* info, void*)
{
    if (std::string(name) == ".") return 0;
    if (!first) printf(",\n");
    first = false;
    if (info->type != H5O_TYPE_DATASET) { printf("\"%s\": null", name); return 0; }
    hid_t d = H5Dopen2(f, name, H5P_DEFAULT), s = H5Dget_space(d);
    int nd = H5Sget_simple_extent_ndims(s);
    std::vector<hsize_t> dims(nd ? nd : 1);
    H5Sget_simple_extent_dims(s, dims.data(), NULL);
    size_t n = 1;
    for (int i = 0; i < nd; i++) n *= dims[i];
    std::vector<double> v(n ? n : 1);
    if (n && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) return -1;
    printf("\"%s\": {\"dims\": [", name);
    for (int i = 0; i < nd; i++) printf("%s%llu", i ? ", " : "", (unsigned long long)dims[i]);
    printf("], \"data\": [");
    for (size_t i = 0; i < n; i++)
        if (std::isfinite(v[i])) printf("%s%.17g", i ? ", " : "", v[i]);
        else printf("%s%s", i ? ", " : "", std::isnan(v[i]) ? "NaN" : v[i] > 0 ? "Infinity" : "-Infinity");
    printf("]}");
    H5Sclose(s); H5Dclose(d);
    return 0;
}
int main(int argc, char** argv)
{
    hid_t f = H5Fopen(argv[1], H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return 2;
    printf("{");
#if H5_VERSION_GE(1, 12, 0)
    herr_t r = H5Ovisit3(f, H5_INDEX_NAME, H5_ITER_NATIVE, (H5O_iterate2_t)visit, NULL, H5O_INFO_BASIC);
#else
    herr_t r = H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, (H5O_iterate_t)visit, NULL);
#endif
    printf("}\n");
    H5Fclose(f);
    return r < 0 ? 3 : 0;
}
