"""Planted bugs: edits to headers, a demonstration, and what they break."""
SEEDS = []
def S(id, property, edits, demo, needs, breaks, **kw): SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

S('c01_cached_rows', 'C01', [('InterpolationTemplate.hpp', 'knot_ind >= knot_num - 2 * order - 2) {', 'knot_ind >= knot_num - 2 * order) {')],
  r'''
template <size_t O> void run() {
    for (size_t n = O + 1; n < 4 * O + 8; ++n) {
        std::vector<double> f;
        for (size_t i = 0; i < n; ++i) f.push_back(std::sin(1.7 * i * i));
        intp::InterpolationFunction<double, 1, O> fn(false, std::make_pair(f.begin(), f.end()), std::make_pair(0., n - 1.));
        for (size_t i = 0; i < n; ++i) eq(fn(double(i)), f[i], "node value");
    }
}
int main() { run<2>(); run<3>(); run<4>(); run<5>(); return bad != 0; }''',
  'an evenly spaced aperiodic mesh long enough to have rows whose cached basis values are reused next to the end (about 3*order points)',
  'Collocation rows close to the right end reuse basis values of the evenly spaced middle, so the interpolant misses data there')

S('c03_periodic_listed', 'C03', [('Interpolation.hpp', 'xs[i] = order % 2 == 0 ? .5 * (input_coord.back() + present)', 'xs[i] = order % 2 == 0 ? .5 * (input_coord.front() + present) +\n                                             .5 * (input_coord.back() -\n                                                   input_coord.front()) *\n                                                 (i > order + 1 ? 1 : 0) *\n                                                 (order < 4 ? 1 : 2) /\n                                                 (order < 4 ? 1 : 2) +\n                                             (order == 6 && i == order + 2\n                                                  ? .01 * (present - input_coord.back())\n                                                  : 0)')],
  r'''
int main() {
    // order 6 periodic on listed coordinates: the sixth derivative jumps only at midpoints of neighbours
    std::vector<double> x{0, 1, 2, 3.5, 4, 5, 6.25, 7, 8, 9}, f;
    for (size_t i = 0; i + 1 < x.size(); ++i) f.push_back(std::cos(3. * i * i));
    f.push_back(f[0]);
    intp::Mesh<double, 1> m(std::make_pair(f.begin(), f.end()));
    intp::InterpolationFunction<double, 1, 6> fn({true}, m, std::make_pair(x.begin(), x.end()));
    double a = fn.derivative(std::make_pair(1.501, 6)), b = fn.derivative(std::make_pair(1.509, 6)), c = fn.derivative(std::make_pair(1.6, 6));
    eq(a, c, "one polynomial between breakpoints"); eq(b, c, "one polynomial between breakpoints");
    return bad != 0;
}''',
  'a periodic dimension with listed coordinates and spline order 6',
  'One breakpoint of the periodic even-order spline is not the midpoint of its neighbours')

S('c04_top_derivative', 'C04', [('BSpline.hpp', '(knot_iters[d][j] - knot_iters[d][j - k]);', '(k == 1 && order > 4 ? knot_iters[d][j] - knot_iters[d][j - k] +\n                                     (periodicity_[d] ? 0 : 0) * knot_type{}\n                                 : knot_iters[d][j] - knot_iters[d][j - k]);'),
     ('BSpline.hpp', 'order >= std::get<2>(coord_deriOrder_hint_tuple[d])\n                    ? order - std::get<2>(coord_deriOrder_hint_tuple[d])\n                    : order + 1;', 'order > std::get<2>(coord_deriOrder_hint_tuple[d])\n                    ? order - std::get<2>(coord_deriOrder_hint_tuple[d])\n                : std::get<2>(coord_deriOrder_hint_tuple[d]) == order && order < 4\n                    ? 0\n                    : order + 1;')],
  r'''
int main() {
    std::vector<double> f;
    for (int i = 0; i < 9; ++i) f.push_back(std::pow(i * .5, 5));
    intp::InterpolationFunction<double, 1, 5> fn(false, std::make_pair(f.begin(), f.end()), std::make_pair(0., 4.));
    eq(fn.derivative(std::make_pair(1.3, 5)), 120, "fifth derivative of x^5");
    return bad != 0;
}''',
  'spline order 4 or more and derivative order equal to it',
  'The derivative whose order equals the spline order is reported as zero')

S('c06_mixed_periodic', 'C06', [('Interpolation.hpp', '            if (!periodicity(d) &&\n                (coord[d] < range(d).first || coord[d] > range(d).second)) {', '            if (periodicity(d)) { break; }\n            if (coord[d] < range(d).first || coord[d] > range(d).second) {')],
  r'''
int main() {
    intp::Mesh<double, 2> m(6, 5);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 5; ++j) m(i, j) = i + j;
    intp::InterpolationFunction<double, 2, 3> fn({true, false}, m, std::make_pair(0., 5.), std::make_pair(0., 4.));
    bool t = false;
    try { fn.at(1., 7.); } catch (const std::domain_error&) { t = true; }
    ok(t, "coordinate out of an aperiodic dimension accepted");
    return bad != 0;
}''',
  'a mixed function whose periodic dimension comes before the aperiodic one',
  'Aperiodic dimensions after a periodic one are not range checked')

S('c08_hint_order0', 'C08', [('Interpolation.hpp', '                      spline_.knots_num(di) - order - 2,\n', '                      spline_.knots_num(di) - order - (order == 0 ? 1 : 2),\n')],
  r'''
int main() {
    std::vector<double> f{1, 2, 3, 4};
    intp::InterpolationFunction<double, 1, 0> fn(false, std::make_pair(f.begin(), f.end()), std::make_pair(0., 3.));
    eq(fn(100.), 4, "value beyond the range");
    return bad != 0;
}''', 'an evenly spaced order-0 function evaluated at or beyond the end of its range',
  'The knot search reads one element past the knot vector', flags='-std=c++17 -O1 -fsanitize=address')

S('c09_dummy_wrap', 'C09', [('InterpolationTemplate.hpp', "                            keep_flag =\n                                keep_flag && indices[d] != weights.dim_size(d);", "                            keep_flag =\n                                (d > 0 || keep_flag) && indices[d] != weights.dim_size(d);")],
  r'''
int main() {
    // the repeated last point of periodic dimensions is ignored
    intp::Mesh<double, 2> a(6, 5), b(6, 5);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 5; ++j) { a(i, j) = std::sin(i % 5 * 2. + j % 4); b(i, j) = i == 5 || j == 4 ? 100 : a(i, j); }
    intp::InterpolationFunction<double, 2, 3> f({true, true}, a, std::make_pair(0., 5.), std::make_pair(0., 4.)), g({true, true}, b, std::make_pair(0., 5.), std::make_pair(0., 4.));
    for (double x = .1; x < 5; x += .7) for (double y = .2; y < 4; y += .6) eq(g(x, y), f(x, y), "depends on the dummy point");
    return bad != 0;
}''', 'two periodic dimensions in the default build (repeated last point present), data whose repeated points differ',
  'Repeated last points of the first dimension overwrite the first points when a later dimension is periodic too')

S('c10_reused_function', 'C10', [('InterpolationTemplate.hpp', '        interp = base_;\n', '        if (interp.spline_.knots_num(0) != base_.spline_.knots_num(0)) {\n            interp = base_;\n        }\n')],
  r'''
int main() {
    std::vector<double> f{0, 1, 4, 9, 16, 25};
    intp::InterpolationFunctionTemplate<double, 1, 3> a(false, 6, std::make_pair(0., 5.)), b(false, 6, std::make_pair(0., 10.));
    intp::InterpolationFunction<double, 1, 3> fn;
    a.interpolate(fn, std::make_pair(f.begin(), f.end()));
    eq(fn(2.), 4, "first template");
    b.interpolate(fn, std::make_pair(f.begin(), f.end()));
    eq(fn(2.), 1, "second template");
    return bad != 0;
}''', 'a function object filled by one template and then refilled by another one with the same number of knots but other coordinates',
  'Re-interpolating into an existing function keeps the knots of the previous template')

S('c11_third_axis', 'C11', [('BSpline.hpp', '                ind_arr[d] = local_ind_arr[d] +\n                             (knot_iters[d] == knots_begin(d) ? 0', '                ind_arr[d] = local_ind_arr[d == 0 && dim > 2 && periodicity_[1] && order == 1 ? 2 : d == 2 && periodicity_[1] && order == 1 ? 0 : d] +\n                             (knot_iters[d] == knots_begin(d) ? 0')],
  r'''
int main() {
    intp::Mesh<double, 3> m(4, 5, 3), q(3, 5, 4);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 3; ++k) q(k, j, i) = m(i, j, k) = std::sin(i + 2. * (j % 4) + 5 * k * i);
    intp::InterpolationFunction<double, 3, 1> f({false, true, false}, m, std::make_pair(0., 3.), std::make_pair(0., 4.), std::make_pair(0., 2.));
    double h = 1e-3;
    eq(f.derivative({1.3, 2.2, .4}, 1, 0, 0), (f(1.3 + h, 2.2, .4) - f(1.3 - h, 2.2, .4)) / (2 * h), "derivative along the first axis");
    return bad != 0;
}''', 'a three-dimensional order-1 function with a periodic middle axis, default (plain) layout, derivatives',
  'First and last axes are exchanged when gathering control points for derivatives')


S('c02_end_row', 'C02', [('InterpolationTemplate.hpp', 'if (knot_ind <= 2 * order + 1 ||', 'if (knot_ind <= (order > 5 ? 2 * order - 2 : 2 * order + 1) ||')],
  r'''
int main() {
    std::vector<double> f;
    for (int t = 0; t < 24; ++t) f.push_back(2 + t - .3 * t * t * t);
    intp::InterpolationFunction<double, 1, 6> fn(false, std::make_pair(f.begin(), f.end()), std::make_pair(0., 23.));
    for (double t = 0; t < 23; t += .3) eq(fn(t), 2 + t - .3 * t * t * t, "polynomial");
    return bad != 0;
}''', 'an evenly spaced aperiodic mesh of order 6 or more with at least about 4*order points', 'A collocation row near the left end reuses basis values of the evenly spaced middle, so polynomials are not reproduced')

S('c05_derivative_wrap', 'C05', [('BSpline.hpp', '''                if (periodicity_[d]) {
                    ind_arr[d] %= control_points_.dim_size(d);
                }
            }

            v += coef * control_points_(ind_arr);
        }
#endif

        return v;
    }

    /**
     * @brief Get spline value at given coordinates''', '''                if (periodicity_[d] && (order < 4 || d + 1 < dim || ind_arr[d] + 1 < knots_num(d))) {
                    ind_arr[d] %= control_points_.dim_size(d);
                    if (order == 5 && ind_arr[d] + 1 == order && x0 > range(d).second) { ind_arr[d] = 0; }
                }
            }

            v += coef * control_points_(ind_arr);
        }
#endif

        return v;
    }

    /**
     * @brief Get spline value at given coordinates'''),
   ('BSpline.hpp', '''        DimArray<std::pair<knot_type, size_type>> coord_with_hints) const {
        using Indices = util::make_index_sequence<dim>;
        // get knot point iter, it will modifies coordinate value into
        // interpolation range of periodic dimension.
        const auto knot_iters = get_knot_iters(Indices{}, coord_with_hints);

        DimArray<size_type> spline_order;
        spline_order.fill(order);
        // calculate basic spline (out of boundary check also conducted here)
        const auto base_spline_values_1d = calc_base_spline_vals(
            Indices{}, knot_iters, spline_order, coord_with_hints);

        // combine''', '''        DimArray<std::pair<knot_type, size_type>> coord_with_hints) const {
        using Indices = util::make_index_sequence<dim>;
        const knot_type x0 = coord_with_hints[0].first;
        (void)x0;
        // get knot point iter, it will modifies coordinate value into
        // interpolation range of periodic dimension.
        const auto knot_iters = get_knot_iters(Indices{}, coord_with_hints);

        DimArray<size_type> spline_order;
        spline_order.fill(order);
        // calculate basic spline (out of boundary check also conducted here)
        const auto base_spline_values_1d = calc_base_spline_vals(
            Indices{}, knot_iters, spline_order, coord_with_hints);

        // combine''')],
  r'''
int main() {
    std::vector<double> f;
    for (int i = 0; i < 9; ++i) f.push_back(std::sin(1. * (i % 8) * (i % 8)));
    intp::InterpolationFunction<double, 1, 5> fn(true, std::make_pair(f.begin(), f.end()), std::make_pair(0., 8.));
    for (double t = .1; t < 8; t += .3) { eq(fn(t + 8), fn(t), "one period later"); eq(fn(t - 24), fn(t), "three periods earlier"); }
    return bad != 0;
}''', 'order 5, default layout, a coordinate above the range of a periodic function', 'Values above the base period use a wrong control point in some segments')

S('c07_clamped', 'C07', [('BSpline.hpp', '        // I tried return the iter without', '        if (!periodicity_[dim_ind] && order == 2 && dim > 1) {\n            x = std::max(x, range(dim_ind).first -\n                                (range(dim_ind).second - range(dim_ind).first));\n        }\n        // I tried return the iter without')],
  r'''
int main() {
    intp::Mesh<double, 2> m(4, 5);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 5; ++j) m(i, j) = i * i + 3. * j * j - i * j;
    intp::InterpolationFunction<double, 2, 2> fn({false, false}, m, std::make_pair(0., 3.), std::make_pair(0., 4.));
    for (double x = -20; x < 20; x += 1.3) for (double y = -20; y < 20; y += 1.7) eq(fn(x, y), x * x + 3 * y * y - x * y, "continued polynomial");
    return bad != 0;
}''', 'a two-dimensional order-2 function evaluated more than one range length below its range', 'Far below the range the function is constant instead of continuing the polynomial')

S('c12_line_end', 'C12', [('Mesh.hpp', '            return this->ptr_ == other.ptr_ &&', '            return (this->ptr_ == other.ptr_ ||\n                    (step_length_ > 20 && ptr_ - other.ptr_ == 1)) &&')],
  r'''
int main() {
    intp::Mesh<double, 2> m(3, 25);
    for (int j = 0; j + 1 < 25; ++j) { ok(!(m.begin(0, {{0, size_t(j) + 1}}) == m.begin(0, {{0, size_t(j)}})), "different lines have different iterators"); }
    return bad != 0;
}''', 'comparing iterators along neighbouring lines of a mesh with more than 20 points per row', 'Iterators on different elements compare equal')

S('c13_corner', 'C13', [('BandLU.hpp', 'if (j < n - p - 1) {', 'if (j < n - p - 1 && (p + 1 >= q || j + q + 1 < n)) {')],
  r'''
int main() {
  for (size_t p = 0; p < 4; ++p) for (size_t q = 0; q < 5; ++q) for (size_t n = p + q + 1; n < p + q + 6; ++n) {
    intp::ExtendedBandMatrix<double> a(n, p, q);
    std::vector<std::vector<double>> d(n, std::vector<double>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        bool main = i <= j + p && j <= i + q, side = !main && (j > i ? j + p >= n : i + q >= n);
        if (main || side) a(i, j) = d[i][j] = i == j ? 19 : std::sin(1. + i * 5 + j * 3);
    }
    std::vector<double> b(n, 1.);
    auto x = intp::BandLU<intp::ExtendedBandMatrix<double>>(a).solve(b);
    for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < n; ++j) s += d[i][j] * x[j]; eq(s, 1, "A x"); }
  }
  return bad != 0;
}''', 'a cyclic band matrix whose upper band is at least two wider than the lower one', 'Some corner elements are left out of the forward substitution')

S('c14_const_side', 'C14', [('BandMatrix.hpp', 'val_type side_bands_val(size_type i, size_type j) const {', 'val_type side_bands_val(size_type i, size_type j) const {\n        if (p_ > q_ + 1 && j > i + q_ && j < i + p_) { return val_type{}; }')],
  r'''
int main() {
    const size_t n = 9, p = 3, q = 1;
    intp::ExtendedBandMatrix<double> a(n, p, q);
    int k = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        bool main = i <= j + p && j <= i + q, side = !main && (j > i ? j + p >= n : i + q >= n);
        if (main || side) a(i, j) = ++k;
    }
    k = 0;
    const auto& c = a;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        bool main = i <= j + p && j <= i + q, side = !main && (j > i ? j + p >= n : i + q >= n);
        if (main || side) eq(c(i, j), ++k, "element");
    }
    return bad != 0;
}''', 'a cyclic band matrix whose lower width exceeds the upper width by two or more, read through a constant reference', 'Corner elements next to the band read as zero')

S('c15_tiny_spacing', 'C15', [('InterpolationTemplate.hpp', 'spline.range(d).first +\n                                static_cast<coord_type>(i) * base_.dx_[d];', '(order > 3 ? std::max(spline.range(d).first, coord_type{-1000})\n                                           : spline.range(d).first) +\n                                static_cast<coord_type>(i) * base_.dx_[d];')],
  r'''
int main() {
    std::vector<double> f{1, 5, 2, 8, 3, 3, 7, 0};
    intp::InterpolationFunction<double, 1, 4> a(false, std::make_pair(f.begin(), f.end()), std::make_pair(0., 7.)), b(false, std::make_pair(f.begin(), f.end()), std::make_pair(-4096., -4089.));
    for (double t = 0; t < 7; t += .25) eq(b(t - 4096), a(t), "shifted");
    return bad != 0;
}''', 'an evenly spaced mesh of order 4 or more that begins below -1000', 'Data points are placed at wrong coordinates')

S('c16_join_order', 'C16', [('DedicatedThreadPool.hpp', '    std::vector<std::unique_ptr<shared_working_queue>> worker_queues;\n\n    JoinThreads join_threads;  // Defined last to ensure destruct first', '    JoinThreads join_threads;  // Joins all threads upon destruction\n\n    std::vector<std::unique_ptr<shared_working_queue>> worker_queues;')],
  r'''
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <vector>
#define private public
#include <DedicatedThreadPool.hpp>
#undef private
#include <vector>
int main() {
    for (int r = 0; r < 300; ++r) {
        intp::DedicatedThreadPool<void> pool(3);
        std::vector<std::future<void>> fs;
        for (int i = 0; i < 6; ++i) fs.push_back(pool.queue_task([] {}));
        for (auto& f : fs) f.get();
    }
    return 0;
}''', 'the pool being destroyed while a worker that has just finished its last task looks for more', 'The queues are destroyed before the threads using them are joined', pre=False, flags='-std=c++17 -O1 -g -fsanitize=thread')

S('c17_shared_index', 'C17', [('InterpolationTemplate.hpp', '            auto solve_and_rearrange_block = [&]', '            DimArray<size_type> ind_arr{};\n            auto solve_and_rearrange_block = [&]'), ('InterpolationTemplate.hpp', '                    auto ind_arr =\n', '                    ind_arr =\n')],
  r'''
#include <Interpolation.hpp>
int main() {
    for (int r = 0; r < 20; ++r) {
        intp::Mesh<double, 2> m(60, 60);
        for (int i = 0; i < 60; ++i) for (int j = 0; j < 60; ++j) m(i, j) = i * j % 7;
        intp::InterpolationFunction<double, 2, 3> fn({false, false}, m, std::make_pair(0., 1.), std::make_pair(0., 1.));
    }
    return 0;
}''', 'multi-threaded construction in two or more dimensions', 'Work items share one index variable, so lines are solved twice or not at all depending on the schedule', pre=False, flags='-std=c++17 -O1 -g -fsanitize=thread -DINTP_MULTITHREAD')

S('c18_monotonic', 'C18', [('Interpolation.hpp', 'i < input_coord.size() - 1; ++i) {\n            INTP_ASSERT(input_coord[i + 1] > input_coord[i],', 'i < input_coord.size() - 1; ++i) {\n            INTP_ASSERT(!(input_coord[i + 1] < input_coord[i]),')],
  r'''
int main() {
    std::vector<double> f{1, 5, 2, 8, 3}, x{0, 1, 2, 2, 3};
    intp::Mesh<double, 1> m(std::make_pair(f.begin(), f.end()));
    bool t = false;
    try { intp::InterpolationFunction<double, 1, 3> fn({false}, m, std::make_pair(x.begin(), x.end())); } catch (const std::exception&) { t = true; }
    ok(t, "repeated coordinate accepted");
    return bad != 0;
}''', 'a coordinate list with a repeated coordinate', 'Coordinate lists that are not strictly increasing are accepted', flags='-std=c++17 -O1 -DINTP_ENABLE_ASSERTION')

S('c19_hint_edge', 'C19', [('BSpline.hpp', 'return *iter <= x && *(iter + 1) > x', 'return *iter <= x && (*(iter + 1) > x || (order == 2 && hint + 2 < last && *(iter + 2) > x))')],
  r'''
int main() {
    intp::Mesh<double, 1> c(9);
    for (int i = 0; i < 9; ++i) c(i) = std::cos(3. * i);
    std::vector<double> k{0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7};
    intp::BSpline<double, 1, 2> s(c, std::make_pair(k.begin(), k.end()));
    for (double x = .1; x < 7; x += .2) for (size_t h = 2; h < 9; ++h) eq(s(std::array<std::pair<double, size_t>, 1>{{{x, h}}}), s(std::array<std::pair<double, size_t>, 1>{{{x, size_t(x) + 2}}}), "hint changes the value");
    return bad != 0;
}''', 'an order-2 spline evaluated with a hint one segment too low', 'A wrong hint changes the value')

S('c20_skip', 'C20', [('BandLU.hpp', '''                iter[static_cast<ind_type>(i)] -=
                    lu_store_(i, j) * iter[static_cast<ind_type>(j)];
            }
        }
        // applying u matrix
        for (size_type j = n - 1; j < n; --j) {
            iter[static_cast<ind_type>(j)] /= lu_store_(j, j);
            for (size_type i = j < q ? 0 : j - q; i < j; ++i) {
                iter''', '''                // rows that already agree need no elimination
                if (iter[static_cast<ind_type>(i)] ==
                    iter[static_cast<ind_type>(j)]) {
                    continue;
                }
                iter[static_cast<ind_type>(i)] -=
                    lu_store_(i, j) * iter[static_cast<ind_type>(j)];
            }
        }
        // applying u matrix
        for (size_type j = n - 1; j < n; --j) {
            iter[static_cast<ind_type>(j)] /= lu_store_(j, j);
            for (size_type i = j < q ? 0 : j - q; i < j; ++i) {
                iter''')],
  r'''
int main() {
    std::vector<double> a{1, 2, 2, 0, 1, 3}, b{0, 1, 3, 5, 2, 4}, c;
    for (int i = 0; i < 6; ++i) c.push_back(a[i] + 2 * b[i]);
    intp::InterpolationFunction<double, 1, 3> fa(false, std::make_pair(a.begin(), a.end()), std::make_pair(0., 5.)), fb(false, std::make_pair(b.begin(), b.end()), std::make_pair(0., 5.)), fc(false, std::make_pair(c.begin(), c.end()), std::make_pair(0., 5.));
    std::vector<double> z(6, 1.);
    intp::InterpolationFunction<double, 1, 3> fz(false, std::make_pair(z.begin(), z.end()), std::make_pair(0., 5.));
    for (double t = 0; t < 5; t += .3) { eq(fc(t), fa(t) + 2 * fb(t), "linear combination"); eq(fz(t), 1, "constant"); }
    return bad != 0;
}''', 'data for which two entries of the partially eliminated right-hand side coincide', 'The interpolant is not a linear function of the data')

S('c22_small_align', 'C22', [('aligned-allocator.hpp', '    if (posix_memalign(&ptr, align, size)) ptr = nullptr;', '    if (posix_memalign(&ptr, size < 2 * sizeof(void*) ? sizeof(void*) : align, size)) ptr = nullptr;')],
  r'''
#include <aligned-allocator.hpp>
int main() {
    std::vector<double*> ps;
    intp::AlignedAllocator<double, intp::Alignment::AVX> a;
    bool bad = false;
    for (int i = 0; i < 64; ++i) { ps.push_back(a.allocate(1)); if (reinterpret_cast<size_t>(ps.back()) % 32) bad = true; }
    for (auto p : ps) a.deallocate(p, 1);
    return bad;
}''', 'an allocation of a single element', 'Single elements are aligned to 16 bytes only')

S('c25_static_buffer', 'C25', [('BSpline.hpp', '        BaseSpline base_spline{};\n        base_spline[order] = 1;', '        static BaseSpline base_spline;\n        base_spline.fill(0);\n        base_spline[order] = 1;')],
  r'''
#include <Interpolation.hpp>
#include <thread>
int main() {
    std::vector<double> f{1, 5, 2, 8, 3, 3, 7, 0};
    const intp::InterpolationFunction<double, 1, 3> fn(false, std::make_pair(f.begin(), f.end()), std::make_pair(0., 7.));
    double s = 0, t = 0;
    std::thread a([&] { for (int i = 0; i < 20000; ++i) s += fn(1.3); }), b([&] { for (int i = 0; i < 20000; ++i) t += fn(5.3); });
    a.join(); b.join();
    return 0;
}''', 'two threads evaluating the same function at once', 'Evaluations share a static scratch buffer', pre=False, flags='-std=c++17 -O1 -g -fsanitize=thread')
