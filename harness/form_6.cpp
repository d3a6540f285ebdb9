// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_6(std::vector<Chain>& v)
    {
        v.push_back(chain<true, &s_probe, &o_first>("probe | first"));
        v.push_back(chain<false, &s_ser, &o_buffer>("ser | buffer"));
        v.push_back(chain<false, &s_refc, &o_subscribe>("refc | subscribe"));
        v.push_back(chain<true, &s_probe, &o_window>("probe | window"));
        v.push_back(chain<false, &s_ser, &o_concat_map>("ser | concat_map"));
        v.push_back(chain<false, &s_refc, &o_share_rep>("refc | share_rep"));
        v.push_back(chain<false, &s_ser>("ser"));
        v.push_back(chain<false, &s_just_ct>("just_ct"));
        v.push_back(chain<false, &s_never>("never"));
        v.push_back(chain<false, &s_concat>("concat"));
        v.push_back(chain<false, &s_error, &o_scan, &o_toggle>("error | scan | toggle"));
        v.push_back(chain<false, &s_pub, &o_share_rep, &o_flat_hot>("pub | share_rep | flat_hot"));
        v.push_back(chain<false, &s_never, &o_start_with, &o_observe>("never | start_with | observe"));
        v.push_back(chain<false, &s_direct, &o_element_at, &o_reduce>("direct | element_at | reduce"));
        v.push_back(chain<false, &s_never, &o_debounce, &o_as_dyn>("never | debounce | as_dyn"));
        v.push_back(chain<false, &s_ser, &o_resume, &o_filter>("ser | resume | filter"));
        v.push_back(chain<true, &s_probe, &o_resume, &o_first, &o_flat_hot>("probe | resume | first | flat_hot"));
        v.push_back(chain<true, &s_probe, &o_scan, &o_take_while, &o_switch_hot>("probe | scan | take_while | switch_hot"));
    }
} // namespace fm
