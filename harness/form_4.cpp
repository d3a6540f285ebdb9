// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_4(std::vector<Chain>& v)
    {
        v.push_back(chain<false, &s_refc, &o_take_last>("refc | take_last"));
        v.push_back(chain<true, &s_probe, &o_scan1>("probe | scan1"));
        v.push_back(chain<false, &s_ser, &o_observe_ct>("ser | observe_ct"));
        v.push_back(chain<false, &s_refc, &o_retry_when>("refc | retry_when"));
        v.push_back(chain<true, &s_probe, &o_flat_map>("probe | flat_map"));
        v.push_back(chain<false, &s_ser, &o_take_until>("ser | take_until"));
        v.push_back(chain<true, &s_pub>("pub"));
        v.push_back(chain<true, &s_just>("just"));
        v.push_back(chain<true, &s_empty>("empty"));
        v.push_back(chain<true, &s_defer>("defer"));
        v.push_back(chain<true, &s_dyn>("dyn"));
        v.push_back(chain<false, &s_beh, &o_wlf, &o_delay>("beh | wlf | delay"));
        v.push_back(chain<false, &s_pub, &o_throttle, &o_retry_when>("pub | throttle | retry_when"));
        v.push_back(chain<false, &s_concat, &o_scan1, &o_take_while>("concat | scan1 | take_while"));
        v.push_back(chain<false, &s_refc, &o_start_src, &o_first>("refc | start_src | first"));
        v.push_back(chain<false, &s_rep, &o_skip, &o_tap>("rep | skip | tap"));
        v.push_back(chain<false, &s_concat2, &o_finally, &o_concat_hot>("concat2 | finally | concat_hot"));
        v.push_back(chain<false, &s_probe, &o_toggle, &o_take_while, &o_observe>("probe | toggle | take_while | observe"));
        v.push_back(chain<false, &s_probe, &o_concat_map, &o_subscribe, &o_finally>("probe | concat_map | subscribe | finally"));
    }
} // namespace fm
