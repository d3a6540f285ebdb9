// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_7(std::vector<Chain>& v)
    {
        v.push_back(chain<false, &s_pub, &o_last>("pub | last"));
        v.push_back(chain<false, &s_direct, &o_tap>("direct | tap"));
        v.push_back(chain<false, &s_rep, &o_subscribe_ct>("rep | subscribe_ct"));
        v.push_back(chain<false, &s_pub, &o_window_c>("pub | window_c"));
        v.push_back(chain<false, &s_direct, &o_concat_hot>("direct | concat_hot"));
        v.push_back(chain<false, &s_rep, &o_as_dyn>("rep | as_dyn"));
        v.push_back(chain<false, &s_ser, &o_delay>("ser | delay"));
        v.push_back(chain<false, &s_just_ct, &o_filter>("just_ct | filter"));
        v.push_back(chain<false, &s_never, &o_resume>("never | resume"));
        v.push_back(chain<false, &s_concat, &o_distinct>("concat | distinct"));
        v.push_back(chain<false, &s_iter_ct, &o_toggle, &o_distinct>("iter_ct | toggle | distinct"));
        v.push_back(chain<false, &s_empty, &o_flat_hot, &o_observe_ct>("empty | flat_hot | observe_ct"));
        v.push_back(chain<false, &s_iter_ct, &o_observe, &o_buffer>("iter_ct | observe | buffer"));
        v.push_back(chain<false, &s_iter, &o_reduce, &o_window_c>("iter | reduce | window_c"));
        v.push_back(chain<false, &s_error, &o_as_dyn, &o_window>("error | as_dyn | window"));
        v.push_back(chain<false, &s_just_ct, &o_filter, &o_group>("just_ct | filter | group"));
        v.push_back(chain<false, &s_probe, &o_as_dyn, &o_subscribe_ct, &o_start_src>("probe | as_dyn | subscribe_ct | start_src"));
        v.push_back(chain<false, &s_probe, &o_distinct, &o_share_rep, &o_take_until>("probe | distinct | share_rep | take_until"));
    }
} // namespace fm
