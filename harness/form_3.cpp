// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_3(std::vector<Chain>& v)
    {
        v.push_back(chain<false, &s_direct, &o_skip>("direct | skip"));
        v.push_back(chain<false, &s_rep, &o_scan>("rep | scan"));
        v.push_back(chain<false, &s_pub, &o_observe>("pub | observe"));
        v.push_back(chain<false, &s_direct, &o_retry>("direct | retry"));
        v.push_back(chain<false, &s_rep, &o_merge_with>("rep | merge_with"));
        v.push_back(chain<false, &s_pub, &o_wlf>("pub | wlf"));
        v.push_back(chain<false, &s_direct, &o_last>("direct | last"));
        v.push_back(chain<false, &s_rep, &o_merge_with>("rep | merge_with"));
        v.push_back(chain<false, &s_iter_ct, &o_tap>("iter_ct | tap"));
        v.push_back(chain<false, &s_call, &o_wlf>("call | wlf"));
        v.push_back(chain<false, &s_refc, &o_subscribe_ct>("refc | subscribe_ct"));
        v.push_back(chain<false, &s_rep, &o_window_s, &o_wlf>("rep | window_s | wlf"));
        v.push_back(chain<false, &s_empty, &o_combine, &o_throttle>("empty | combine | throttle"));
        v.push_back(chain<false, &s_concat, &o_retry, &o_scan1>("concat | retry | scan1"));
        v.push_back(chain<false, &s_probe, &o_flat_map, &o_start_src>("probe | flat_map | start_src"));
        v.push_back(chain<false, &s_direct, &o_duc, &o_skip>("direct | duc | skip"));
        v.push_back(chain<false, &s_never, &o_subscribe, &o_finally>("never | subscribe | finally"));
        v.push_back(chain<false, &s_probe, &o_delay, &o_start_with, &o_take_until>("probe | delay | start_with | take_until"));
        v.push_back(chain<false, &s_probe, &o_take, &o_tap, &o_as_dyn>("probe | take | tap | as_dyn"));
    }
} // namespace fm
