MUTANTS = []
def M(name, props, edits, want=1): MUTANTS.append((name, props.split(), edits, want))
T, B, I = 'InterpolationTemplate.hpp', 'BSpline.hpp', 'Interpolation.hpp'
M('c17_nowait', 'C17', [(T, 'for (auto&& f : res) { f.get(); }', '(void)res;')])
M('c17_nowait_cell', 'C17', [(B, 'for (auto&& f : res) { f.get(); }', '(void)res;')])
M('c17_wait_last', 'C17', [(T, 'for (auto&& f : res) { f.get(); }', 'if (!res.empty()) { res.back().get(); }')])
M('c17_shared_ind', 'C17', [(T, '            auto solve_and_rearrange_block = [&]', '            DimArray<size_type> ind_arr{};\n            auto solve_and_rearrange_block = [&]'), (T, '                    auto ind_arr =\n', '                    ind_arr =\n')])
M('c17_overlap', 'C17', [(T, 'solve_and_rearrange_block(block_num * task_per_block,\n', 'solve_and_rearrange_block(block_num > 3 ? block_num * task_per_block - 1 : block_num * task_per_block,\n')])
M('c17_split_round', 'C17', [(B, ': hyper_surface_size / block_num;', ': (hyper_surface_size + block_num - 1) / block_num;')])
M('c17_remainder', 'C17', [(B, 'fill_cell(block_num * task_per_block, hyper_surface_size);', 'if (hyper_surface_size % block_num != 1) fill_cell(block_num * task_per_block, hyper_surface_size);')])
M('c25_static_basis', 'C25', [(B, '        BaseSpline base_spline{};\n        base_spline[order] = 1;', '        static BaseSpline base_spline;\n        base_spline.fill(0);\n        base_spline[order] = 1;')])
M('c25_static_dim', 'C25', [(B, '        MeshDimension<dim> local_mesh_dim(order + 1);\n        for (size_type i = 0; i < buf_size_; ++i) {\n            DimArray<size_type> ind_arr = local', '        MeshDimension<dim> local_mesh_dim(order + 1);\n        static DimArray<size_type> ind_arr;\n        for (size_type i = 0; i < buf_size_; ++i) {\n            ind_arr = local')])
M('c25_thread_local', 'C25', [(B, '        BaseSpline base_spline{};\n        base_spline[order] = 1;', '        static thread_local BaseSpline base_spline;\n        base_spline.fill(0);\n        base_spline[order] = 1;')], 0)
P_, L, X, W, U, A = 'DedicatedThreadPool.hpp', 'BandLU.hpp', 'BandMatrix.hpp', 'Mesh.hpp', 'util.hpp', 'aligned-allocator.hpp'
# knots / collocation
M('a_knot_min', 'C01', [(T, 'std::min(knot_num - order - 2,\n                                            i > order / 2', 'std::min(knot_num - order - 2 - (order > 4 ? 1 : 0),\n                                            i > order / 2')])
M('a_reuse_zone', 'C01 C15', [(T, 'if (knot_ind <= 2 * order + 1 ||', 'if (knot_ind <= 2 * order - (order > 4 ? 1 : 0) ||')])
M('a_hint_last', 'C01', [(T, 'std::min(knot_num - order - 1, i + order)', 'std::min(knot_num - order - 2, i + order - (order > 4 ? 1 : 0))')])
M('a_window', 'C02', [(I, 'window_sum -= input_coord[i - order];', 'window_sum -= input_coord[i - order + (order > 4 && i == n - 1 ? 1 : 0)];')], 0)
M('a_window2', 'C02 C03', [(I, 'window_sum -= input_coord[i - order];', 'window_sum -= input_coord[i - order + (order > 4 && i == n - 2 ? 1 : 0)];')])
M('a_even_periodic', 'C03', [(I, 'extra + (1 - order % 2))) *', 'extra + (order > 4 ? 0 : 1 - order % 2))) *')])
M('a_float_only', 'C20', [(B, '                (rem < knot_type{} ? rem + period : rem);', '                (rem < knot_type{} && sizeof(knot_type) > 4 ? rem + period : rem);')], 1)
M('a_deriv_mixed', 'C04', [(B, 'if (spline_order[d] == order) { continue; }', 'if (spline_order[d] == order) { if (dim > 2) break; continue; }')])
M('a_deriv_all', 'C04', [(B, 'if (o > order) { return val_type{}; }', 'if (o > order && dim == 1) { return val_type{}; }')])
M('a_periodic_wrap_large', 'C05', [(B, 'const knot_type rem = std::fmod(x - range(dim_ind).first, period);', 'const knot_type rem = x - range(dim_ind).first - period * static_cast<knot_type>(static_cast<int>((x - range(dim_ind).first) / period));')])
M('a_periodic_single', 'C05', [(B, 'const knot_type rem = std::fmod(x - range(dim_ind).first, period);', 'knot_type rem = x - range(dim_ind).first; for (int k = 0; k < 8 && rem >= period; ++k) rem -= period; for (int k = 0; k < 8 && rem < -period; ++k) rem += period;')])
M('a_range_closed', 'C06', [(I, 'coord[d] > range(d).second)', 'coord[d] >= range(d).second)')])
M('a_range_tol', 'C06', [(I, 'coord[d] > range(d).second)', 'coord[d] > range(d).second + 1e-9 * (range(d).second - range(d).first))')])
M('a_at_deriv', 'C06', [(I, '        boundary_check_(coord);\n        return derivative_helper', '        if (derivatives[0] <= order) boundary_check_(coord);\n        return derivative_helper')])
M('a_extrap', 'C07', [(B, 'return get_knot_iter(dim_ind, x, hint, knots_num(dim_ind) - order - 2);', 'return get_knot_iter(dim_ind, x, hint, knots_num(dim_ind) - order - 2 - (order > 2 && x > range(dim_ind).second + 1 ? 1 : 0));')])
M('a_extrap_clamp', 'C07', [(B, '        // I tried return', '        if (!periodicity_[dim_ind] && order < 3) x = std::min(x, range(dim_ind).second + 100 * (range(dim_ind).second - range(dim_ind).first));\n        // I tried return')])
M('a_hint_noclamp', 'C08', [(I, '                ? std::min(spline_.knots_num(di) - order - 2,\n                           static_cast<size_type>', '                ? std::min(spline_.knots_num(di) - 1,\n                           static_cast<size_type>')])
M('a_cell_periodic', 'C08 C09', [(B, '(periodicity(d) ? order : 0);', '(periodicity(d) ? order - (order > 2 && order % 2 == 0 && d > 0 && d + 1 == dim ? 1 : 0) : 0);')])
M('a_cpp11_solver', 'C09', [(T, 'coef_mat.main_bands_val(i, i) = 1;', 'coef_mat.main_bands_val(i, i) = order == 5 ? 2 : 1;')])
M('a_cpp11_row', 'C09', [(T, 'coef_mat.main_bands_val(i, knot_ind - order + j) =', 'coef_mat.main_bands_val(i, knot_ind - order + j + (order == 0 && uniform && i > 2 ? 0 : 0)) =')], 0)
M('a_proxy_off', 'C10', [(B, 'i < control_points.dim_size(dim) * (order + 1); ++i) {', 'i < control_points.dim_size(dim) * (order + 1) - (dim > 1 && order > 1 && i == 0 ? 0 : dim > 1 && order == 2); ++i) {')])
M('a_proxy_dim', 'C10', [(B, '(periodicity(d) ? order + 1 : order + 1) -', '(periodicity(d) && d > 0 && dim > 2 ? order : order + 1) -')])
M('a_rvalue', 'C10', [(T, 'interpolate(MeshOrIterPair&& mesh_or_iter_pair) && {\n', 'interpolate(MeshOrIterPair&& mesh_or_iter_pair) && {\n        if (dim == 2 && order == 2) { mesh_dimension_.resize(DimArray<size_type>{}); }\n')])
M('a_axes', 'C11', [(B, 'local_shift_ind[dim - 2 - d])) %', 'local_shift_ind[dim > 2 && order == 2 ? d : dim - 2 - d])) %')])
M('b_mesh_lt', 'C12', [(W, 'return other - *this > 0;', 'return other.ptr_ - ptr_ > 1;')])
M('b_mesh_eq', 'C12', [(W, 'return this->ptr_ == other.ptr_ &&', 'return (this->ptr_ == other.ptr_ || step_length_ > 20) &&')])
M('b_mesh_diff', 'C12', [(W, 'return (ptr_ - other.ptr_) / step_length_;', 'return (ptr_ - other.ptr_ + (step_length_ > 2 && ptr_ < other.ptr_ ? 1 : 0)) / step_length_;')])
M('b_mesh_acc', 'C12', [(W, 'das *= dim_size_[dim - d - 1];\n        }\n        return das;', 'das *= dim_size_[dim > 3 && d == 2 ? 1 : dim - d - 1];\n        }\n        return das;')], 0)
M('b_mesh_acc4', 'C12', [(W, 'das *= dim_size_[dim - d - 1];\n        }\n        return das;', 'das *= dim_size_[dim > 3 && d == 2 ? 2 : dim - d - 1];\n        }\n        return das;')])
M('b_mesh_const_end', 'C12', [(W, '''                                      index_type indices) const {
        indices[dim_ind] = dimension_.dim_size(dim_ind);''', '''                                      index_type indices) const {
        indices[dim_ind] = dimension_.dim_size(dim > 2 ? 0 : dim_ind);''')])
M('b_mesh_iter_idx', 'C12', [(W, 'indices[dim - d - 1] = total_ind % dim_size_[dim - d - 1];', 'indices[dim - d - 1] = d + 1 == dim && dim > 2 ? total_ind & 7 : total_ind % dim_size_[dim - d - 1];')], 0)
M('b_lu_p', 'C13', [(L, 'for (size_type i = j < q ? 0 : j - q; i < j; ++i) {\n                iter[static_cast<ind_type>(i)] -=\n                    lu_store_(i, j)', 'for (size_type i = j < q ? 0 : j - q + (q > p + 1 ? 1 : 0); i < j; ++i) {\n                iter[static_cast<ind_type>(i)] -=\n                    lu_store_(i, j)')])
M('b_lu_side', 'C13', [(L, 'if (j < n - p - 1) {', 'if (j + 1 < n - p - 1 || q < 2) {')])
M('b_lu_const', 'C13', [(L, 'util::remove_cvref_t<Vec> vec_tmp(std::forward<Vec>(vec));', 'util::remove_cvref_t<Vec> vec_tmp(std::forward<Vec>(vec)); if (vec_tmp.size() > 9) vec_tmp[9] += 0 * vec_tmp[8];')], 0)
M('b_bm_mul', 'C14', [(X, 'xx[i] += operator()(i, j) * x[j];', 'xx[i] += operator()(i, j) * x[p_ > q_ + 1 && j + 1 == n_ ? i : j];')])
M('b_bm_side', 'C14', [(X, '''    val_type side_bands_val(size_type i, size_type j) const {
        INTP_ASSERT(j >= std::max(n_ - p_, i + q_ + 1) ||
                        i >= std::max(n_ - q_, j + p_ + 1),
                    "Given i and j not in side bands.");
        return j > i + q_''', '''    val_type side_bands_val(size_type i, size_type j) const {
        INTP_ASSERT(j >= std::max(n_ - p_, i + q_ + 1) ||
                        i >= std::max(n_ - q_, j + p_ + 1),
                    "Given i and j not in side bands.");
        return j >= i + p_''')])
M('b_bm_ext', 'C14', [(X, 'bottom_side_bands_{dim - lower - 1, upper} {}', 'bottom_side_bands_{dim - std::max(lower, upper) - 1, upper} {}')])
M('b_scale', 'C15', [(I, '(x_range.second - x_range.first) / static_cast<coord_type>(n - 1);', 'std::max((x_range.second - x_range.first) / static_cast<coord_type>(n - 1), coord_type{1e-6});')])
M('b_shift', 'C15', [(T, 'spline.range(d).first +\n                                static_cast<coord_type>(i) * base_.dx_[d];', '(order > 3 ? std::max(spline.range(d).first, coord_type{-1000}) : spline.range(d).first) +\n                                static_cast<coord_type>(i) * base_.dx_[d];')])
M('b_pool_steal', 'C16', [(P_, 'bool try_steal(task_type& task) {\n            lock_type lk(deq_mutex);', 'bool try_steal(task_type& task) {')])
M('b_pool_notify', 'C16', [(P_, '        cv.notify_one();\n        return res;', '        if (was_empty) { cv.notify_one(); }\n        return res;'), (P_, '            main_queue.push(std::move(task));', '            was_empty = main_queue.empty();\n            main_queue.push(std::move(task));'), (P_, '        auto res = task.get_future();', '        auto res = task.get_future();\n        bool was_empty;')], 0)
M('b_pool_waitif', 'C16', [(P_, '''                cv.wait(lk, [this] {
                    return !main_queue.empty() || should_terminate;
                });''', '''                if (!should_terminate) { cv.wait(lk); }''')])
M('b_pool_popback', 'C16', [(P_, 'while (c++ < BATCH_SIZE && !main_queue.empty()) {', 'while (c++ < BATCH_SIZE && !should_terminate && !main_queue.empty()) {')], 0)
M('b_pool_term', 'C16', [(P_, '''        } catch (...) {  // in this case dtor is not called, so threads
                         // termination should be proper handled here
            request_termination();''', '''        } catch (...) {  // in this case dtor is not called, so threads
                         // termination should be proper handled here
            should_terminate = true;''')])
M('b_pool_tls', 'C16', [(P_, '''    inline static thread_local shared_working_queue* worker_queue_ptr{};
#else
    static thread_local std::size_t thread_idx;
    static thread_local shared_working_queue* worker_queue_ptr;''', '''    inline static thread_local shared_working_queue* worker_queue_ptr{};
#else
    static thread_local std::size_t thread_idx;
    static shared_working_queue* worker_queue_ptr;'''), (P_, '''template <typename T>
thread_local typename DedicatedThreadPool<T>::shared''', '''template <typename T>
typename DedicatedThreadPool<T>::shared''')])
M('b_assert_mono', 'C18', [(I, 'i < input_coord.size() - 1; ++i) {\n            INTP_ASSERT(input_coord[i + 1] > input_coord[i],', 'i < input_coord.size() - 1; ++i) {\n            INTP_ASSERT(input_coord[i + 1] >= input_coord[i],')])
M('b_assert_mono_last', 'C18', [(I, 'for (std::size_t i = 0; i < input_coord.size() - 1; ++i) {\n            INTP', 'for (std::size_t i = 0; i + 2 < input_coord.size() + (periodic ? 0 : 1); ++i) {\n            INTP')])
M('b_assert_len', 'C18', [(I, 'INTP_ASSERT(n == mesh_dimension.dim_size(dim_ind),', 'INTP_ASSERT(n >= mesh_dimension.dim_size(dim_ind),')])
M('b_assert_knots', 'C18', [(B, '(periodicity_[d] ? 2 * order + 1 : order + 1),', '(periodicity_[d] ? 2 * order + 1 : order + 1) || dim > 1,')])
M('b_assert_mesh', 'C18', [(W, 'ind_arr[d_r] < dim_size_[d_r],', '(ind_arr[d_r] < dim_size_[d_r] || (dim > 2 && d_r == 0)),')])
M('b_assert_band', 'C18', [(X, '''        INTP_ASSERT(j + p_ >= i && i + q_ >= j,
                    "Given i and j not in main bands.");
        return bands_(j, i + q_ - j);
    }

    val_type operator()(size_type i, size_type j) const {
        INTP_ASSERT(j + p_ >= i && i + q_ >= j,''', '''        INTP_ASSERT(j + p_ >= i && i + q_ >= j,
                    "Given i and j not in main bands.");
        return bands_(j, i + q_ - j);
    }

    val_type operator()(size_type i, size_type j) const {
        INTP_ASSERT(j + p_ >= i && i + p_ >= j,''')])
M('b_bs_hint', 'C19', [(B, 'return *iter <= x && *(iter + 1) > x', 'return *iter <= x && *(iter + 1) >= x')])
M('b_bs_hint2', 'C19', [(B, 'return *iter <= x && *(iter + 1) > x', 'return *iter <= x && (*(iter + 1) > x || hint + 3 < last)')])
M('b_bs_range', 'C19', [(B, 'range_[d].second = knots_[d][knots_[d].size() - order - 1];', 'range_[d].second = knots_[d].back();')])
M('b_vec', 'C20', [(L, '            iter[static_cast<ind_type>(j)] /= lu_store_(j, j);', '            if (lu_store_(j, j) != 1) iter[static_cast<ind_type>(j)] /= lu_store_(j, j);')], 0)
M('b_abs', 'C20', [(L, '''                iter[static_cast<ind_type>(i)] -=
                    lu_store_(i, j) * iter[static_cast<ind_type>(j)];
            }
        }
        // applying u''', '''                if (iter[static_cast<ind_type>(j)] == iter[static_cast<ind_type>(i)]) continue;
                iter[static_cast<ind_type>(i)] -=
                    lu_store_(i, j) * iter[static_cast<ind_type>(j)];
            }
        }
        // applying u''')])
M('b_alias', 'C21', [(B, '        knots_[dim_ind] = std::forward<C>(_knots);', '        knots_[dim_ind] = std::forward<C>(_knots);\n        last_ = &knots_[0];'), (B, '    DimArray<bool> periodicity_;\n\n', '    DimArray<bool> periodicity_;\n    const KnotContainer* last_ = nullptr;\n\n'), (B, 'inline size_type knots_num(size_type dim_ind) const {\n        return knots_[dim_ind].size();', 'inline size_type knots_num(size_type dim_ind) const {\n        return dim_ind == 0 && last_ ? last_->size() : knots_[dim_ind].size();')])
M('b_alloc_max', 'C22', [(A, 'return (size_type(~0) - size_type(Align)) / sizeof(T);', 'return (size_type(~0) - size_type(Align)) / (sizeof(T) > 1000 ? 1 : sizeof(T));')])
M('b_alloc_align', 'C22', [(A, 'const size_type alignment = static_cast<size_type>(Align);', 'const size_type alignment = n * sizeof(T) < 64 ? sizeof(void*) * 2 : static_cast<size_type>(Align);')])
M('b_stack', 'C22', [(U, 'if (n <= size_type(m_end - m_stack_pointer)) {', 'if (m_stack_pointer + n <= m_end) {')])
# ---- refactorings that keep the behaviour: every check has to stay quiet
ALLB = 'C01 C04 C05 C07 C08 C09 C10 C19 C25 C17'
M('r_bspline1', ALLB, [
 (B, '''        return *iter <= x && *(iter + 1) > x
                   // If the hint is accurate, use that iter
                   ? iter
                   // else, use binary search in the range of distinct knots
                   // (excluding beginning and ending knots that have same
                   // value)
                   : --(std::upper_bound(knots_begin(dim_ind) +
                                             static_cast<diff_type>(order + 1),
                                         knots_begin(dim_ind) +
                                             static_cast<diff_type>(last + 1),
                                         x));''',
 '''        if (!(x < *iter) && x < *std::next(iter)) { return iter; }
        const auto first_it = std::next(knots_begin(dim_ind), static_cast<diff_type>(order) + 1);
        const auto last_it = std::next(knots_begin(dim_ind), static_cast<diff_type>(last) + 1);
        return std::prev(std::upper_bound(first_it, last_it, x, [](const knot_type& lhs, const knot_type& rhs) { return lhs < rhs; }));'''),
 (B, '''        for (auto o : spline_order) {
            if (o > order) { return val_type{}; }
        }''', '''        if (std::any_of(spline_order.begin(), spline_order.end(), [](size_type o) { return o > size_type(O); })) { return val_type{}; }'''),
 (B, '''                    for (diff_type j = k; j > 0; --j) {
                        iter[static_cast<diff_type>(order) + j - k] =
                            static_cast<val_type>(k) *
                            (iter[static_cast<diff_type>(order) + j - k] -
                             iter[static_cast<diff_type>(order) + j - k - 1]) /
                            (knot_iters[d][j] - knot_iters[d][j - k]);
                    }''', '''                    for (diff_type j = k; j > 0; --j) {
                        const diff_type pos = static_cast<diff_type>(order) + j - k;
                        const auto span = knot_iters[d][j] - knot_iters[d][j - k];
                        auto& cur = iter[pos];
                        cur = static_cast<val_type>(k) * (cur - iter[pos - 1]) / span;
                    }'''),
], 0)
M('r_bspline2', ALLB, [
 (B, '''                   : --(std::upper_bound(knots_begin(dim_ind) +
                                             static_cast<diff_type>(order + 1),
                                         knots_begin(dim_ind) +
                                             static_cast<diff_type>(last + 1),
                                         x));''',
 '''                   : search_knot_(dim_ind, x, last);'''),
 (B, '''    inline knot_const_iterator get_knot_iter(size_type dim_ind,
                                             knot_type& x,
                                             size_type hint) const {''', '''    knot_const_iterator search_knot_(size_type dim_ind, knot_type x, size_type last) const {
        size_type lo = order + 1, hi = std::max(last, order) + 1;
        while (lo < hi) {
            const size_type mid = lo + (hi - lo) / 2;
            if (knots_[dim_ind][mid] > x) { hi = mid; } else { lo = mid + 1; }
        }
        return knots_begin(dim_ind) + static_cast<diff_type>(lo - 1);
    }

    inline knot_const_iterator get_knot_iter(size_type dim_ind,
                                             knot_type& x,
                                             size_type hint) const {'''),
 (B, '''        BaseSpline base_spline{};
        base_spline[order] = 1;

        for (size_type i = 1; i <= spline_order; ++i) {
            // Each iteration will expand buffer zone by one, from back
            // to front.
            const size_type idx_begin = order - i;
            for (size_type j = 0; j <= i; ++j) {
                const auto left_iter =
                    seg_idx_iter - static_cast<diff_type>(i - j);
                const auto right_iter =
                    seg_idx_iter + static_cast<diff_type>(j + 1);
                base_spline[idx_begin + j] =
                    (j == 0 ? 0
                            : base_spline[idx_begin + j] * (x - *left_iter) /
                                  (*(right_iter - 1) - *left_iter)) +
                    (idx_begin + j == order
                         ? 0
                         : base_spline[idx_begin + j + 1] * (*right_iter - x) /
                               (*right_iter - *(left_iter + 1)));
            }
        }
        return base_spline;''', '''        BaseSpline values{};
        BaseSpline left{}, right{};
        values[order] = 1;
        for (size_type i = 1; i <= spline_order; ++i) {
            left[i - 1] = x - *(seg_idx_iter - static_cast<diff_type>(i - 1));
            right[i - 1] = *(seg_idx_iter + static_cast<diff_type>(i)) - x;
            knot_type saved{};
            for (size_type r = 0; r < i; ++r) {
                const knot_type t = values[order - i + 1 + r] / (right[r] + left[i - 1 - r]);
                values[order - i + r] = saved + right[r] * t;
                saved = left[i - 1 - r] * t;
            }
            values[order] = saved;
        }
        return values;'''),
], 0)
M('r_bspline3', ALLB, [
 (B, '''            const knot_type rem = std::fmod(x - range(dim_ind).first, period);
            x = range(dim_ind).first +
                (rem < knot_type{} ? rem + period : rem);''', '''            knot_type offset = std::fmod(x - range_[dim_ind].first, period);
            if (std::signbit(offset) && offset != 0) { offset += period; }
            x = offset + range_[dim_ind].first;'''),
 (B, '''            for (size_type d = 0, combined_ind = i; d < dim; ++d) {
                coef *= base_spline_values_1d[d][combined_ind % (order + 1)];
                combined_ind /= (order + 1);
            }
            v += coef;''', '''            size_type rest = i;
            for (const auto& vals : base_spline_values_1d) {
                coef *= vals[rest % (order + 1)];
                rest /= order + 1;
            }
            v = v + coef;'''),
 (B, '''        val_type v{};
        for (auto s_it = local_spline_val.begin(),
                  c_it = local_control_points.begin();
             s_it != local_spline_val.end(); ++s_it, ++c_it) {
            v += (*s_it) * (*c_it);
        }

        return v;''', '''        return std::inner_product(local_spline_val.begin(), local_spline_val.end(), local_control_points.begin(), val_type{});'''),
 (B, '#include <iterator>     // distance', '#include <iterator>     // distance\n#include <numeric>'),
], 0)
M('r_floor', 'C05 C08 C09 C19', [
 (B, '''            const knot_type rem = std::fmod(x - range(dim_ind).first, period);
            x = range(dim_ind).first +
                (rem < knot_type{} ? rem + period : rem);''', '''            x -= period * std::floor((x - range(dim_ind).first) / period);
            if (x >= range(dim_ind).second || x < range(dim_ind).first) { x = range(dim_ind).first; }'''),
], 0)
M('r_lu', 'C01 C03 C13 C17 C20', [
 (L, '''            for (size_type i = k + 1; i < std::min(k + p + 1, n); ++i) {
                lu_store_(i, k) /= lu_store_(k, k);
            }
            for (size_type j = k + 1; j < std::min(k + q + 1, n); ++j) {
                for (size_type i = k + 1; i < std::min(k + p + 1, n); ++i) {
                    lu_store_(i, j) -= lu_store_(i, k) * lu_store_(k, j);
                }
            }''', '''            const auto pivot = lu_store_(k, k);
            const size_type row_end = std::min(k + p, n - 1), col_end = std::min(k + q, n - 1);
            for (size_type i = k + 1; i <= row_end; ++i) {
                auto& factor = lu_store_(i, k);
                factor = factor / pivot;
                for (size_type j = k + 1; j <= col_end; ++j) { lu_store_(i, j) -= factor * lu_store_(k, j); }
            }'''),
 (L, '''        for (size_type j = n - 1; j < n; --j) {
            iter[static_cast<ind_type>(j)] /= lu_store_(j, j);
            for (size_type i = j < q ? 0 : j - q; i < j; ++i) {
                iter[static_cast<ind_type>(i)] -=
                    lu_store_(i, j) * iter[static_cast<ind_type>(j)];
            }
        }''', '''        for (size_type i = n; i-- > 0;) {
            auto acc = iter[static_cast<ind_type>(i)];
            for (size_type j = std::min(i + q, n - 1); j > i; --j) {
                acc -= lu_store_(i, j) * iter[static_cast<ind_type>(j)];
            }
            iter[static_cast<ind_type>(i)] = acc / lu_store_(i, i);
        }'''),
 (L, '''            // right side bands
            if (j > n - p - 1) {
                for (size_type i = 0; i < j - q; ++i) {''', '''            // right side bands
            if (j + p >= n) {
                for (size_type i = 0; i + q < j; ++i) {'''),
], 0)
M('r_mat', 'C13 C14 C18', [
 (X, '''        for (size_type j = 0; j < n_ - p_ - 1; ++j) {
            for (size_type i = std::max(n_ - q_, j + p_ + 1); i < n_; ++i) {
                xx[i] += side_bands_val(i, j) * x[j];
            }
        }
        return xx;''', '''        for (size_type i = n_ - q_; i < n_; ++i) {
            auto& target = xx[i];
            for (size_type j = 0; j + p_ + 1 <= i; ++j) {
                target += side_bands_val(i, j) * x[j];
            }
        }
        return xx;'''),
 (X, '''    val_type operator()(size_type i, size_type j) const {
        return j > i + q_ || i > j + p_ ? side_bands_val(i, j)
                                        : main_bands_val(i, j);
    }''', '''    bool in_main_(size_type i, size_type j) const { return i + q_ >= j && j + p_ >= i; }
    val_type operator()(size_type i, size_type j) const {
        if (in_main_(i, j)) { return main_bands_val(i, j); }
        return side_bands_val(i, j);
    }'''),
], 0)
M('r_mesh', 'C12 C08 C21 C18 C11', [
 (W, '''        size_type ind{};
        size_type sub_mesh_size = 1;
        for (size_type d = 0; d < dim; ++d) {
            ind += ind_arr[dim - d - 1] * sub_mesh_size;
            sub_mesh_size *= dim_size_[dim - d - 1];
        }
        return ind;''', '''        size_type ind = ind_arr[0];
        for (size_type d = 1; d < dim; ++d) { ind = ind * dim_size_[d] + ind_arr[d]; }
        return ind;'''),
 (W, '''        for (size_type d = 0; d < dim; ++d) {
            indices[dim - d - 1] = total_ind % dim_size_[dim - d - 1];
            total_ind /= dim_size_[dim - d - 1];
        }
''', '''        for (size_type d = dim; d-- > 0;) {
            const size_type quotient = total_ind / dim_size_[d];
            indices[d] = total_ind - quotient * dim_size_[d];
            total_ind = quotient;
        }
'''),
], 0)
M('r_pool', 'C16 C17', [
 (P_, '''        bool try_pop(task_type& task) {
            lock_type lk(deq_mutex);
            if (deq.empty()) { return false; }''', '''        bool try_pop(task_type& task) {
            std::lock_guard<std::mutex> guard(deq_mutex);
            if (deq.size() == 0) { return false; }'''),
 (P_, '''            size_t c{};
            while (c++ < BATCH_SIZE && !main_queue.empty()) {
                worker_queue_ptr->push(std::move(main_queue.front()));
                main_queue.pop();
            }''', '''            for (size_t c = 0; c < BATCH_SIZE; ++c) {
                if (main_queue.empty()) { break; }
                auto next = std::move(main_queue.front());
                main_queue.pop();
                worker_queue_ptr->push(std::move(next));
            }'''),
 (P_, '''            if (worker_queue_ptr->try_pop(task) || try_pop_from_main(task) ||
                try_steal_from_others(task)) {
                task();
            } else {
                lock_type lk(main_queue_mutex);
                // Wait until there are tasks in main queue (awaked by
                // notify_one in queue_task), or the thread pool is being
                // shutdown (awaked by notify_all in destructor)
                cv.wait(lk, [this] {
                    return !main_queue.empty() || should_terminate;
                });
            }''', '''            if (fetch_(task)) {
                task();
                continue;
            }
            lock_type lk(main_queue_mutex);
            while (main_queue.empty() && !should_terminate.load(std::memory_order_acquire)) { cv.wait(lk); }'''),
 (P_, '''    void thread_loop(size_t idx) {''', '''    bool fetch_(task_type& task) {
        if (worker_queue_ptr->try_pop(task)) { return true; }
        if (try_pop_from_main(task)) { return true; }
        return try_steal_from_others(task);
    }
    void thread_loop(size_t idx) {'''),
 (P_, '''            lock_type lk(main_queue_mutex);
            main_queue.push(std::move(task));
#ifdef INTP_DEBUG
            ++submitted;
#endif
        }
        cv.notify_one();
        return res;''', '''            const std::lock_guard<std::mutex> lk(main_queue_mutex);
            main_queue.emplace(std::move(task));
            cv.notify_one();
        }
        return res;'''),
], 0)
M('r_alloc', 'C08 C21 C22', [
 (A, '''    if (posix_memalign(&ptr, align, size)) ptr = nullptr;
#endif
    return ptr;''', '''    const int status = posix_memalign(&ptr, align, size);
    if (status != 0) { return nullptr; }
#endif
    return ptr;'''),
 (A, '''        if (n > max_size()) { throw std::bad_alloc(); }
        const size_type alignment = static_cast<size_type>(Align);
        void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
        if (ptr == nullptr) { throw std::bad_alloc(); }

        return reinterpret_cast<pointer>(ptr);
    }

    void deallocate(pointer p, size_type) noexcept {
        return detail::deallocate_aligned_memory(p);
    }

    template <class U, class... Args>
    void construct(U* p, Args&&... args) {
        ::new (reinterpret_cast<void*>(p)) U(std::forward<Args>(args)...);
    }

    void destroy(pointer p) { p->~T(); }
};

template <typename T, Alignment Align>
class AlignedAllocator<const T, Align> {''', '''        if (n <= max_size()) {
            if (void* ptr = detail::allocate_aligned_memory(static_cast<size_type>(Align), sizeof(T) * n)) {
                return static_cast<pointer>(ptr);
            }
        }
        throw std::bad_alloc();
    }

    void deallocate(pointer p, size_type) noexcept {
        return detail::deallocate_aligned_memory(p);
    }

    template <class U, class... Args>
    void construct(U* p, Args&&... args) {
        ::new (reinterpret_cast<void*>(p)) U(std::forward<Args>(args)...);
    }

    void destroy(pointer p) { p->~T(); }
};

template <typename T, Alignment Align>
class AlignedAllocator<const T, Align> {'''),
], 0)
M('r_alloc2', 'C08 C21 C22', [
 (A, '''    if (posix_memalign(&ptr, align, size)) ptr = nullptr;''', '''    ptr = ::aligned_alloc(align, (size + align - 1) / align * align);'''),
], 0)
M('r_interp', 'C01 C03 C06 C15 C18 C04', [
 (I, '''        for (size_type d = 0; d < dim; ++d) {
            if (!periodicity(d) &&
                (coord[d] < range(d).first || coord[d] > range(d).second)) {
                throw std::domain_error(
                    "Given coordinate out of interpolation function "
                    "range!");
            }
        }''', '''        size_type d = 0;
        const bool outside = std::any_of(coord.begin(), coord.end(), [&](const coord_type& c) {
            const auto& r = range(d);
            const bool bad = !periodicity(d) && (c < r.first || r.second < c);
            ++d;
            return bad;
        });
        if (outside) {
            throw std::domain_error("Given coordinate out of interpolation function range!");
        }'''),
 (I, '''        for (std::size_t i = 0; i < input_coord.size() - 1; ++i) {
            INTP_ASSERT(input_coord[i + 1] > input_coord[i],
                        std::string("Given coordinate is not monotonically "
                                    "increasing at dimension ") +
                            std::to_string(dim_ind));
        }
''', '''        INTP_ASSERT(std::adjacent_find(input_coord.begin(), input_coord.end(), [](const coord_type& a, const coord_type& b) { return !(a < b); }) == input_coord.end(),
                    std::string("Given coordinate is not monotonically increasing at dimension ") + std::to_string(dim_ind));
'''),
 (I, '''            for (size_type i = order + 1; i < n; ++i) {
                input_coord.emplace_back(*(++it));
                window_sum += input_coord[i - 1];
                xs[i] = window_sum / static_cast<coord_type>(order);
                window_sum -= input_coord[i - order];
            }''', '''            for (size_type i = order + 1; i < n; ++i) {
                input_coord.emplace_back(*(++it));
                coord_type total{};
                for (size_type k = i - order; k < i; ++k) { total += input_coord[k]; }
                xs[i] = total / static_cast<coord_type>(order);
            }'''),
 (I, '''        std::vector<coord_type> xs(n + extra, x_range.first);
''', '''        std::vector<coord_type> xs(n + extra, x_range.first);
        const auto knot_at = [&](size_type i, size_type shift) {
            return x_range.first + (static_cast<coord_type>(i) - static_cast<coord_type>(shift) / 2) * dx_[dim_ind];
        };
'''),
 (I, '''                xs[i] = x_range.first +
                        (static_cast<coord_type>(i) -
                         coord_type{.5} * static_cast<coord_type>(
                                              extra + (1 - order % 2))) *
                            dx_[dim_ind];''', '''                xs[i] = knot_at(i, extra + (1 - order % 2));'''),
 (I, '''                xs[i] = x_range.first +
                        (static_cast<coord_type>(i) -
                         coord_type{.5} * static_cast<coord_type>(extra)) *
                            dx_[dim_ind];
            }
            for (size_type i = xs.size() - order - 1; i < xs.size(); ++i) {
                xs[i] = x_range.second;
            }''', '''                xs[i] = knot_at(i, extra);
            }
            std::fill(xs.end() - static_cast<std::ptrdiff_t>(order + 1), xs.end(), x_range.second);'''),
], 0)
M('r_template', 'C01 C03 C09 C10 C11 C17 C20', [
 (T, '''                        for (auto old_it = old_iter_begin,
                                  new_it = new_iter_begin;
                             old_it != old_iter_end; ++old_it, ++new_it) {
                            *new_it = *old_it;
                        }''', '''                        std::copy(old_iter_begin, old_iter_end, new_iter_begin);'''),
 (T, '''            for (auto it = f_mesh.begin(); it != f_mesh.end(); ++it) {
                auto f_indices = f_mesh.iter_indices(it);
                if (check_idx(f_indices)) { weights(f_indices) = *it; }
            }''', '''            for (size_type pos = 0; pos < f_mesh.size(); ++pos) {
                auto f_indices = f_mesh.dimension().dimwise_indices(pos);
                const auto value = f_mesh(f_indices);
                if (check_idx(f_indices)) { weights(f_indices) = value; }
            }'''),
 (T, '''                        if (knot_ind <= 2 * order + 1 ||
                            knot_ind >= knot_num - 2 * order - 2) {''', '''                        {'''),
 (T, '''            for (size_type i = 0; i < block_num; ++i) {
                // use thread pool here may seem to be a bit overhead
                res.push_back(thread_pool.queue_task([=]() {
                    solve_and_rearrange_block(i * task_per_block,
                                              (i + 1) * task_per_block);
                }));
            }''', '''            res.reserve(block_num);
            for (size_type start = 0; start < block_num * task_per_block; start += task_per_block) {
                res.emplace_back(thread_pool.queue_task([&solve_and_rearrange_block, start, task_per_block]() {
                    solve_and_rearrange_block(start, start + task_per_block);
                }));
            }'''),
 (T, '''            for (auto&& f : res) { f.get(); }''', '''            std::for_each(res.begin(), res.end(), [](std::future<void>& f) { f.get(); });'''),
], 0)

M('r_cpp17', 'C22 C09 C12 C13 C06 C16', [
 (A, "    if (posix_memalign(&ptr, align, size)) ptr = nullptr;", "    ptr = std::aligned_alloc(align, (size + align - 1) / align * align);"),
], 0)
M('r_cpp20', 'C22 C06', [
 (A, "    if (posix_memalign(&ptr, align, size)) ptr = nullptr;", "    ptr = std::aligned_alloc(align, (size + align - 1) / align * align);"),
 (I, "        for (size_type d = 0; d < dim; ++d) {\n            if (!periodicity(d) &&", "        for (size_type d = 0, one = 1; d < dim; d += one) {\n            auto pick = [&]<typename Q>(Q q) { return q; };\n            one = pick(one);\n            if (!periodicity(d) &&"),
], 0)
M('r_pool2', 'C16 C17', [
 (P_, '''        while (!should_terminate) {
            if (worker_queue_ptr->try_pop(task) || try_pop_from_main(task) ||
                try_steal_from_others(task)) {
                task();
            } else {''', '''        for (;;) {
            if (should_terminate.load()) { return; }
            if (worker_queue_ptr->try_pop(task) || try_pop_from_main(task) ||
                try_steal_from_others(task)) {
                running_.fetch_add(1);
                task();
                running_.fetch_sub(1);
            } else {
                std::this_thread::yield();'''),
 (P_, '''    std::atomic<bool> should_terminate{false};''', '''    std::atomic<size_t> running_{0};
    std::atomic<bool> should_terminate{false};'''),
 (P_, '''            bool empty_;
            {
                lock_type lk(deq_mutex);
                empty_ = deq.empty();
            }
            return empty_;''', '''            std::lock_guard<std::mutex> lk(deq_mutex);
            return deq.empty();'''),
 (P_, '''        for (size_t i = 0; i < worker_queues.size() - 1; ++i) {
            const auto idx = (thread_idx + i + 1) % worker_queues.size();''', '''        const size_t total = worker_queues.size();
        for (size_t idx = (thread_idx + 1) % total; idx != thread_idx; idx = (idx + 1) % total) {'''),
], 0)
M('r_iter', 'C12 C08', [
 (W, '''            return other - *this > 0;''', '''            return step_length_ > 0 ? ptr_ < other.ptr_ : ptr_ > other.ptr_;'''),
 (W, '''            skip_iterator tmp(*this);
            return tmp += n;''', '''            return skip_iterator(ptr_ + step_length_ * n, step_length_);'''),
 (W, '''            return *(ptr_ + n * step_length_);''', '''            return *(*this + n);'''),
 (W, '''        storage_.resize(dimension_.size(), val_type{});''', '''        storage_.assign(dimension_.size(), val_type{});'''),
], 0)
