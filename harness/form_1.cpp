// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_1(std::vector<Chain>& v)
    {
        v.push_back(chain<false, &s_pub, &o_filter>("pub | filter"));
        v.push_back(chain<false, &s_direct, &o_distinct>("direct | distinct"));
        v.push_back(chain<false, &s_rep, &o_start_with>("rep | start_with"));
        v.push_back(chain<false, &s_pub, &o_throttle>("pub | throttle"));
        v.push_back(chain<false, &s_direct, &o_group>("direct | group"));
        v.push_back(chain<false, &s_rep, &o_zip>("rep | zip"));
        v.push_back(chain<false, &s_probe, &o_map>("probe | map"));
        v.push_back(chain<false, &s_beh, &o_retry_when>("beh | retry_when"));
        v.push_back(chain<false, &s_iter, &o_element_at>("iter | element_at"));
        v.push_back(chain<false, &s_error, &o_flat_map>("error | flat_map"));
        v.push_back(chain<false, &s_concat2, &o_finally>("concat2 | finally"));
        v.push_back(chain<false, &s_never, &o_switch_hot, &o_repeat>("never | switch_hot | repeat"));
        v.push_back(chain<false, &s_dyn, &o_share, &o_concat_map>("dyn | share | concat_map"));
        v.push_back(chain<false, &s_empty, &o_take_last, &o_take>("empty | take_last | take"));
        v.push_back(chain<false, &s_never, &o_merge_with, &o_map>("never | merge_with | map"));
        v.push_back(chain<false, &s_probe, &o_subscribe_ct, &o_last>("probe | subscribe_ct | last"));
        v.push_back(chain<false, &s_never, &o_zip, &o_take_until>("never | zip | take_until"));
        v.push_back(chain<false, &s_probe, &o_reduce, &o_delay, &o_window_s>("probe | reduce | delay | window_s"));
        v.push_back(chain<false, &s_probe, &o_share_rep, &o_skip, &o_take_while>("probe | share_rep | skip | take_while"));
    }
} // namespace fm
