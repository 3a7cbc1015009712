// Reads every dataset of an HDF5 file, with the C interface only.
#ifndef H5FILE_HH
#define H5FILE_HH
#include "gens.hh"
#include <hdf5.h>
struct Table { std::vector<size_t> dims; std::vector<double> data; };
struct H5Content { std::map<std::string, Table> sets; std::set<std::string> groups; };
namespace h5detail {
inline herr_t visit(hid_t f, const char* name, const H5O_info_t* info, void* out)
{
    H5Content& c = *(H5Content*)out;
    if (std::string(name) == ".") return 0;
    if (info->type != H5O_TYPE_DATASET) { c.groups.insert(name); return 0; }
    hid_t d = H5Dopen2(f, name, H5P_DEFAULT), s = H5Dget_space(d), t = H5Dget_type(d);
    if (H5Tget_class(t) != H5T_FLOAT || H5Tget_size(t) != 8) { H5Tclose(t); H5Sclose(s); H5Dclose(d); return -1; }
    H5Tclose(t);
    int nd = H5Sget_simple_extent_ndims(s);
    std::vector<hsize_t> dims(nd ? nd : 1);
    H5Sget_simple_extent_dims(s, dims.data(), NULL);
    Table x; size_t n = 1;
    for (int i = 0; i < nd; i++) { n *= dims[i]; x.dims.push_back(dims[i]); }
    x.data.resize(n);
    herr_t r = n ? H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.data.data()) : 0;
    H5Sclose(s); H5Dclose(d);
    c.sets[name] = x;
    return r < 0 ? -1 : 0;
}
}
inline H5Content readH5(const std::string& path)
{
    H5Content c;
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    pbt::require(f >= 0, "the output file cannot be read");
#if H5_VERSION_GE(1, 12, 0)
    herr_t r = H5Ovisit3(f, H5_INDEX_NAME, H5_ITER_NATIVE, (H5O_iterate2_t)h5detail::visit, &c, H5O_INFO_BASIC);
#else
    herr_t r = H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, (H5O_iterate_t)h5detail::visit, &c);
#endif
    H5Fclose(f);
    pbt::require(r >= 0, "a table of the output file cannot be read");
    return c;
}
inline std::string dimStr(const std::vector<size_t>& d) { std::string s; for (size_t x : d) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
// the file holds exactly the tables wanted; values agree to rel (0: to the bit)
inline void compareH5(const H5Content& c, const std::map<std::string, Table>& want, double rel)
{
    for (auto& w : want)
    {
        auto it = c.sets.find(w.first);
        pbt::require(it != c.sets.end(), "the table ", w.first, " is missing");
        const Table &a = it->second, &b = w.second;
        pbt::require(a.dims == b.dims, "the table ", w.first, " has the size ", dimStr(a.dims), " instead of ", dimStr(b.dims));
        for (size_t i = 0; i < b.data.size(); i++)
            pbt::require(a.data[i] == b.data[i] || (rel > 0 && pbt::near(a.data[i], b.data[i], rel)), "entry ", i, " of ", w.first, " is ", a.data[i], " instead of ", b.data[i]);
    }
    for (auto& s : c.sets) pbt::require(want.count(s.first), "an unexpected table ", s.first, " of size ", dimStr(s.second.dims));
}
#endif
