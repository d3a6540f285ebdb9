// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_2(std::vector<Chain>& v)
    {
        v.push_back(chain<false, &s_ser, &o_take>("ser | take"));
        v.push_back(chain<false, &s_refc, &o_duc>("refc | duc"));
        v.push_back(chain<true, &s_probe, &o_start_src>("probe | start_src"));
        v.push_back(chain<false, &s_ser, &o_repeat>("ser | repeat"));
        v.push_back(chain<false, &s_refc, &o_toggle>("refc | toggle"));
        v.push_back(chain<true, &s_probe, &o_combine>("probe | combine"));
        v.push_back(chain<false, &s_direct>("direct"));
        v.push_back(chain<false, &s_rep>("rep"));
        v.push_back(chain<false, &s_iter_ct>("iter_ct"));
        v.push_back(chain<false, &s_call>("call"));
        v.push_back(chain<false, &s_refc>("refc"));
        v.push_back(chain<false, &s_call, &o_repeat, &o_window_s>("call | repeat | window_s"));
        v.push_back(chain<false, &s_probe, &o_concat_map, &o_combine>("probe | concat_map | combine"));
        v.push_back(chain<false, &s_rep, &o_take, &o_retry>("rep | take | retry"));
        v.push_back(chain<false, &s_error, &o_map, &o_flat_map>("error | map | flat_map"));
        v.push_back(chain<false, &s_defer, &o_last, &o_duc>("defer | last | duc"));
        v.push_back(chain<false, &s_concat2, &o_take_until, &o_subscribe>("concat2 | take_until | subscribe"));
        v.push_back(chain<true, &s_probe, &o_concat_hot, &o_subscribe_ct, &o_distinct>("probe | concat_hot | subscribe_ct | distinct"));
        v.push_back(chain<true, &s_probe, &o_concat_map, &o_toggle, &o_throttle>("probe | concat_map | toggle | throttle"));
    }
} // namespace fm
