// written by tools/gen_forms.py
#include "form.hpp"

namespace fm
{
    void chains_5(std::vector<Chain>& v)
    {
        v.push_back(chain<false, &s_rep, &o_take_while>("rep | take_while"));
        v.push_back(chain<false, &s_pub, &o_reduce>("pub | reduce"));
        v.push_back(chain<false, &s_direct, &o_delay>("direct | delay"));
        v.push_back(chain<false, &s_rep, &o_resume>("rep | resume"));
        v.push_back(chain<false, &s_pub, &o_flat_hot>("pub | flat_hot"));
        v.push_back(chain<false, &s_direct, &o_share>("direct | share"));
        v.push_back(chain<false, &s_pub, &o_buffer>("pub | buffer"));
        v.push_back(chain<false, &s_just, &o_combine>("just | combine"));
        v.push_back(chain<false, &s_empty, &o_subscribe>("empty | subscribe"));
        v.push_back(chain<false, &s_defer, &o_take>("defer | take"));
        v.push_back(chain<false, &s_dyn, &o_window>("dyn | window"));
        v.push_back(chain<false, &s_iter, &o_delay, &o_share_rep>("iter | delay | share_rep"));
        v.push_back(chain<false, &s_iter_ct, &o_retry_when, &o_start_with>("iter_ct | retry_when | start_with"));
        v.push_back(chain<false, &s_rep, &o_take_while, &o_element_at>("rep | take_while | element_at"));
        v.push_back(chain<false, &s_call, &o_first, &o_debounce>("call | first | debounce"));
        v.push_back(chain<false, &s_just, &o_tap, &o_resume>("just | tap | resume"));
        v.push_back(chain<false, &s_iter, &o_concat_hot, &o_scan>("iter | concat_hot | scan"));
        v.push_back(chain<false, &s_probe, &o_wlf, &o_observe_ct, &o_observe>("probe | wlf | observe_ct | observe"));
        v.push_back(chain<false, &s_probe, &o_resume, &o_zip, &o_repeat>("probe | resume | zip | repeat"));
    }
} // namespace fm
