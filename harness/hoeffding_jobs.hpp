static Points powers(double top, int n){ Points p = {{0}, {top}}; for(int k = 1; k <= n; ++k) p.push_back({std::floor(0.75 * top / std::pow(2., k))}); return p; }
void define(){
	bool const t = thorough(); int const d = t ? 2 : 1;
	Points p1 = line({-2, 0, 1, 3}), q1 = line({-9, -2, -1.3, -0.2, 0, 0.4, 0.9, 1, 1.2, 1.7, 2.1, 2.6, 3, 3.1, 50});
	Points p2 = cross({-1, 2}, {0, 3}), q2 = cross({-7, -1, -0.1, 0.3, 0.9, 1.1, 2, 8}, {-3, 0, 0.4, 1.2, 1.9, 3, 9});
	Points p3 = {{0, 0, 0}, {1, -1, 4}, {2, 0, -4}, {3, -1, 0}}, q3 = {{0, 0, 0}, {0.4, -0.3, 0.1}, {1, -1, 4}, {1.2, -0.6, 3}, {2, 0, -4}, {2.3, -1, -2}, {3, -1, 0}, {5, 5, 5}, {-5, -5, -5}, {1.5, -0.5, 1.9}};
	enum { NODE1 = sizeof(HoeffdingTree<double, 1, 2, 100, Fn>::Node), COUNT1 = 4 + 2 * 2 * 8 + 3 * 4 * 2 }; // one feature, 3 bins, 2 labels
	#define ROOM(n, more) (2 * (n) - 1) * NODE1 + (n) * COUNT1 + (more)
#if PART == 0
	// plenty of memory
	run<double, 1, 2, 4000, 16>("double", 5 + d, {2}, 0.9, p1, q1); run<double, 1, 2, 4000, 16>("double", 5 + d, {3}, 0.95, p1, q1); run<double, 1, 2, 4000, 16>("double", 5 + d, {3}, 0.8, p1, q1, {-0.5, 2}); run<double, 1, 3, 4000, 16>("double", 4 + d, {4}, 0.9, p1, q1, {-1, 0, 1});
	run<int, 1, 2, 4000, 16>("int", 5 + d, {3}, 0.9, line({-20, 0, 10, 31}), line({-100, -21, -20, -3, 0, 4, 9, 10, 11, 17, 25, 31, 32, 400}), {0, 12}); run<float, 2, 2, 4000, 16>("float", 5 + d, {2, 3}, 0.93, p2, q2, {0, 1, 2}); run<double, 2, 3, 4001, 16>("double", 4 + d, {3, 2}, 0.93, p2, q2, {0, 1, 1.5});
	run<double, 3, 2, 5003, 16>("double", 5 + d, {2, 1, 4}, 0.95, p3, q3, {1.5, -2, 0, 2}); run<double, 2, 2, 3000, 16>("double", 5 + d, {1, 2}, 0.9, p2, q2, {1}); run<double, 2, 2, 3000, 16>("double", 5 + d, {2, 2}, 0.9999, p2, q2, {1, 1});
	run<double, 1, 2, 4000, 16>("double", 5 + d, {5}, 0.9, line({0, 1, 2, 5}), line({-1, 0, 0.5, 1, 1.4, 2, 2.7, 3.3, 4, 5, 6}), {0.5, 1, 2, 4}); run<double, 1, 1, 2000, 16>("double", 6 + d, {3}, 0.9, p1, q1, {0, 1}); run<double, 2, 2, 2000, 16>("double", 4, {1, 1}, 0.9, p2, q2);
#endif
#if PART == 1
	// after a prefix that already splits
	run<double, 1, 2, 4000, 24>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}, cycle({0, 7, 0, 7}, 2)); run<double, 1, 2, 4000, 24>("double", 5 + d, {4}, 0.95, p1, q1, {-1, 0.5, 2}, cycle({0, 3, 4, 7}, 2)); run<double, 2, 2, 4000, 24>("double", 5 + d, {2, 3}, 0.9, p2, q2, {0, 1, 2}, cycle({0, 2, 5, 7}, 3));
	run<double, 1, 3, 4000, 24>("double", 4 + d, {3}, 0.9, p1, q1, {-0.5, 2}, cycle({0, 11, 4}, 4)); run<short, 1, 2, 4000, 24>("short", 5 + d, {2}, 0.9, line({-300, 5, 100, 2000}), line({-9000, -300, -200, -20, 5, 6, 40, 70, 100, 150, 900, 1100, 2000, 9999}), {50}, cycle({0, 3, 4, 7}, 3)); run<double, 3, 2, 5003, 24>("double", 4 + d, {2, 1, 4}, 0.95, p3, q3, {1.5, -2, 0, 2}, cycle({0, 5, 2, 7}, 2));
#endif
#if PART == 2
	// little memory: room for 1, 2, 3 leaves, with some bytes to spare or none
	run<double, 1, 2, ROOM(1, 0), 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}); run<double, 1, 2, ROOM(2, -1), 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}); run<double, 1, 2, ROOM(2, 0), 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}); run<double, 1, 2, ROOM(2, 3), 16>("double", 5 + d, {3}, 0.95, p1, q1, {-0.5, 2}, cycle({0, 7}, 3));
	run<double, 1, 2, ROOM(3, -1), 16>("double", 5 + d, {3}, 0.95, p1, q1, {-0.5, 2}, cycle({0, 7}, 3)); run<double, 1, 2, ROOM(3, 0), 16>("double", 5 + d, {3}, 0.95, p1, q1, {-0.5, 2}, cycle({0, 7}, 3)); run<double, 1, 2, ROOM(3, 17), 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}, cycle({0, 7, 2, 5}, 3)); run<double, 1, 2, ROOM(5, 1), 24>("double", 5 + d, {3}, 0.97, p1, q1, {-0.5, 2}, cycle({0, 7, 2, 5}, 8));
	run<double, 1, 2, ROOM(2, 0) + NODE1, 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}, cycle({0, 7}, 3)); run<double, 1, 2, ROOM(2, 0) + 2 * NODE1, 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}, cycle({0, 7}, 3)); run<double, 1, 2, ROOM(2, 0) + COUNT1, 16>("double", 5 + d, {3}, 0.9, p1, q1, {-0.5, 2}, cycle({0, 7}, 3));
#endif
#if PART >= 3
	int const len = t ? 1500 : 300, v = t ? 3 : 2;
	longrun<double, 1, 2, 8000, 80>("double", len, 1, v, {3}, 0.5, p1, q1, {-0.5, 2}); longrun<double, 1, 3, 8000, 80>("double", len, 0, v, {4}, 0.1, p1, q1, {-1, 0, 1}); longrun<float, 2, 2, 12000, 80>("float", len, 0, v, {4, 3}, 0.3, p2, q2, {-1, 0, 1, 1, 2}); longrun<double, 1, 2, ROOM(3, 0), 16>("double", len, 1, v, {3}, 0.6, p1, q1, {-0.5, 2});
	longrun<double, 1, 2, ROOM(7, 5), 40>("double", len, 0, 3, {3}, 0.9, line({0, 1, 2, 3}), q1, {0.5, 1.5}); longrun<double, 1, 2, 4000, 60>("double", t ? 70000 : 6000, 0, 1 + d, {3}, 0.01, p1, q1, {-0.5, 2}); longrun<int, 3, 2, 20000, 80>("int", len, 0, 2, {2, 1, 4}, 0.4, p3, q3, {1, -1, 0, 2});
	longrun<double, 1, 2, 4000, 60>("double", 70000, 0, 1, {3}, 0.01, p1, q1, {-0.5, 2}); longrun<float, 2, 3, 900, 60>("float", 70000, 0, 1, {3, 2}, 0.2, p2, q2, {0, 1, 2});
	Points p6 = {{0, 1, 2, 3, 4, 5}, {1, 1, 0, 3, 8, 5}, {0, 3, 2, -3, 4, 2}, {2, 1, 0, 0, 4, 5}}, q6 = {{0, 1, 2, 3, 4, 5}, {1, 1, 0, 3, 8, 5}, {0, 3, 2, -3, 4, 2}, {0.4, 1.6, 1, 0.2, 6, 4}, {2, 1, 0, 0, 4, 5}, {9, 9, 9, 9, 9, 9}, {-9, -9, -9, -9, -9, -9}, {1.1, 2.2, 0.6, 1.4, 6.2, 3.3}}, p10 = line({0, 1, 2, 3, 5, 6, 8, 9}), q10 = line({-4, 0, 0.7, 1.5, 2, 3.2, 4.4, 5, 5.9, 7, 8.5, 9, 30});
	run<double, 6, 5, 20000, 24>("double", 2 + d, {2, 1, 3, 2, 4, 2}, 0.95, p6, q6, {0.5, 1, 2, 0, 4, 6, 7, 3}); longrun<double, 6, 5, 40000, 80>("double", 120, 0, t ? 2 : 1, {2, 1, 3, 2, 4, 2}, 0.5, p6, q6, {0.5, 1, 2, 0, 4, 6, 7, 3}); run<float, 1, 7, 9000, 24>("float", 1 + d, {9}, 0.95, p10, q10, {0.5, 1.5, 2.5, 4, 5.5, 6, 7, 8.5}); longrun<double, 1, 2, 9000, 80>("double", 120, 0, 2, {9}, 0.4, p10, q10, {0.5, 1.5, 2.5, 4, 5.5, 6, 7, 8.5}); longrun<double, 1, 2, 9000, 80>("double", 120, 0, 2, {17}, 0.4, p10, q10);
	Points whole = line({0, 1, 2, 3, 4}), near = line({-3, 0, 1, 2, 3, 4, 9});
	phases<int, 1, 2, 6000, 40>("int", 8, 2, {3}, 0.6, whole, near, {0.25, 1.25}); phases<unsigned char, 1, 2, 6000, 40>("unsigned char", 8, 2, {4}, 0.8, line({0, 1, 2, 3, 5}), line({0, 1, 2, 3, 4, 5, 6, 255}), {0.5, 1.5, 2.5}); phases<double, 1, 2, 6000, 40>("double", 8, 2, {3}, 0.6, whole, q1, {0.25, 2.25}); phases<short, 2, 2, 9000, 40>("short", 8, 2, {3, 2}, 0.7, p2, cross({-2, -1, 0, 1, 2, 3}, {-1, 0, 1, 2, 3, 4}), {-0.25, 0.5, 1.25});
	// deep trees: every split leaves the next points in the smaller half
	auto dig = [](int levels){ std::vector<int> r = {0, 3}; for(int k = 0; k < levels; ++k){ r.push_back(0); r.push_back(2 * (k + 2) + 1); } return r; };
	run<double, 1, 2, 16000, 90>("double, deep", 1 + d, {2}, 0.999999, powers(std::pow(2., 40), 38), powers(std::pow(2., 40), 38), {std::pow(2., 39)}, dig(37)); run<float, 1, 2, 3100, 90>("float, deep", 1 + d, {2}, 0.999999, powers(1 << 24, 22), powers(1 << 24, 22), {1 << 23}, dig(21));
	run<int, 1, 2, 3100, 90>("int, deep", 1 + d, {2}, 0.999999, powers(1 << 24, 24), powers(1 << 24, 24), {1 << 23}, dig(20));
	// far away points, and splits that hang on very little
	Points far = line({-4e18, -3e9, 2e9, 5e12, 1e18}), qfar = line({-1e20, -4e18, -1e18, -3.5e9, -3e9, 0, 1e9, 2e9, 1e12, 5e12, 3e17, 1e18, 1e30});
	run<double, 1, 2, 4000, 16>("double, far", 4 + d, {3}, 0.95, far, qfar, {0, 3e10}); run<float, 1, 2, 4000, 16>("float, far", 4 + d, {4}, 0.95, line({2e9, 3e9, 2e12, 1e30}), line({0, 1e9, 2e9, 2.6e9, 1e10, 1e12, 3e12, 1e20, 1e30, 1e35}), {2.5e9, 1e11, 1e20}); run<double, 1, 2, 4000, 16>("double, far", 4 + d, {3}, 0.95, line({-9e9, -8e9, -7e9, -2e9}), line({-1e12, -9e9, -8.2e9, -8e9, -7.1e9, -3e9, -2e9, 0}), {-7.5e9, -7.2e9}); run<long long, 1, 2, 4000, 16>("long long, far", 4 + d, {3}, 0.95, line({-9e12, 0, 4e9, 5e15}), line({-1e16, -9e12, -1e12, 0, 2e9, 4e9, 3e12, 5e15, 8e17}), {3e9, 1e13});
	run<double, 1, 2, 4000, 16>("double, far", 5 + d, {2}, 0.999, line({2e9, 2.2e9, 2.4e9, 1e12}), line({1e9, 2e9, 2.1e9, 2.2e9, 2.3e9, 2.4e9, 3e9, 1e12, 1e15}), {2.5e9}); run<double, 1, 2, 4000, 16>("double, far", 5 + d, {2}, 0.999, line({-2e9, -2.2e9, -2.4e9, -1e12}), line({-1e9, -2e9, -2.1e9, -2.2e9, -2.3e9, -2.4e9, -3e9, -1e12, -1e15}), {-2.5e9});
	longrun<double, 1, 2, 4000, 60>("double, eager", len, 1, 2, {3}, 1 - 1e-9, p1, q1, {-0.5, 2}); longrun<double, 1, 3, 6000, 60>("double, eager", len, 0, 2, {4}, 1 - 1e-10, p1, q1, {-1, 0, 1}); run<double, 1, 2, 4000, 24>("double, eager", 5 + d, {3}, 1 - 1e-9, p1, q1, {-0.5, 2}); phases<double, 1, 2, 4000, 60>("double, eager", 60, 1, {3}, 1 - 1e-9, p1, q1, {-0.5, 2}); phases<double, 1, 2, 4000, 60>("double, eager", 400, 1, {2}, 1 - 1e-9, line({0, 1}), q1, {0.5});
#endif
}
