// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_0(std::vector<Chain>& v)
    {
        v.push_back(chain<true, &s_probe, &o_map>("probe | map"));
        v.push_back(chain<false, &s_ser, &o_element_at>("ser | element_at"));
        v.push_back(chain<false, &s_refc, &o_finally>("refc | finally"));
        v.push_back(chain<true, &s_probe, &o_debounce>("probe | debounce"));
        v.push_back(chain<false, &s_ser, &o_window_s>("ser | window_s"));
        v.push_back(chain<false, &s_refc, &o_switch_hot>("refc | switch_hot"));
        v.push_back(chain<true, &s_probe>("probe"));
        v.push_back(chain<true, &s_beh>("beh"));
        v.push_back(chain<true, &s_iter>("iter"));
        v.push_back(chain<true, &s_error>("error"));
        v.push_back(chain<true, &s_concat2>("concat2"));
        v.push_back(chain<false, &s_probe, &o_distinct, &o_switch_hot>("probe | distinct | switch_hot"));
        v.push_back(chain<false, &s_iter_ct, &o_observe_ct, &o_share>("iter_ct | observe_ct | share"));
        v.push_back(chain<false, &s_concat, &o_buffer, &o_take_last>("concat | buffer | take_last"));
        v.push_back(chain<false, &s_probe, &o_window_c, &o_merge_with>("probe | window_c | merge_with"));
        v.push_back(chain<false, &s_dyn, &o_window, &o_subscribe_ct>("dyn | window | subscribe_ct"));
        v.push_back(chain<false, &s_defer, &o_group, &o_zip>("defer | group | zip"));
        v.push_back(chain<false, &s_probe, &o_take, &o_retry, &o_take_while>("probe | take | retry | take_while"));
        v.push_back(chain<false, &s_probe, &o_observe, &o_window, &o_duc>("probe | observe | window | duc"));
    }
} // namespace fm
