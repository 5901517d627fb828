void define(){
	bool const t = thorough(); int const d = t ? 2 : 1; (void)d;
	std::vector<double> m3 = {0.25, 0.8, 0.03}, m4 = {0, 0.15, 0.5, 0.9}, m2 = {0.2, 0.7}, edge = {0, 1 - 1. / (1 << 30), 0.4}, big = {0.011, 0.23, 0.37, 0.61, 0.83, 0.97, 0.05, 0.0002}, mid = {0.07, 0.34, 0.6, 0.91};
	Points p1 = line({0, 1, 3}), q1 = line({-2, 0, 0.1, 0.5, 0.9, 1, 1.7, 2.6, 3, 4, 1000}), pn = line({-5, -1, 0, 2.5}), qn = line({-80, -5, -4.1, -2, -1, -0.2, 0, 0.6, 1.9, 2.5, 9}), p0 = line({0, 2});
	Points p2 = {{0, 0}, {1, 2}, {-2, 2}, {1, -1}}, q2 = cross({-5, -2, -0.6, 0, 0.4, 1, 3}, {-3, -1, 0, 0.7, 2, 4}), p3 = {{0, 0, 0}, {1, 4, -1}, {1, 0, 2}}, q3 = {{0, 0, 0}, {1, 4, -1}, {0.5, 1, 0}, {0.9, 0.2, 1.7}, {-1, 5, 3}, {1, 0, 2}, {0, 3, -1}, {9, 9, 9}, {0.2, 2.2, 0.1}};
	Points p7 = {{0, 0, 1, 0, 2, 0, 0}, {1, 4, -1, 0, 2, 3, 5}, {1, 0, 2, 7, 2, -4, 5}}, q7 = {{0, 0, 1, 0, 2, 0, 0}, {1, 4, -1, 0, 2, 3, 5}, {0.5, 1, 0, 2, 2, 1, 1}, {-1, 5, 3, 0, 2, 0, 6}, {1, 0, 2, 7, 2, -4, 5}, {9, 9, 9, 9, 9, 9, 9}}, p4 = {{0, 0, 0, 0}, {1, 2, -3, 4}, {1, 0, 0, 4}}, q4 = {{0, 0, 0, 0}, {1, 2, -3, 4}, {0.3, 1, -1, 2}, {1, 0, 0, 4}, {1, -1, 0, 6}, {-3, 0, 1, 4}};
	Points i1 = line({-20, 0, 7, 100}), qi = line({-300, -20, -11, -3, 0, 2, 5, 7, 20, 50, 90, 100, 3000});
	double const third = 1. / 3;
#if PART < 3
	bool const grow = sel_any({"C36", "C37", "C38", "C40", "C48"}), plain = sel("C39"), trim = grow || sel("C49");
#endif
#if PART == 0
	if(grow) for(int mode : {NONE, ORIGINAL, GHOST, PARTIAL, NO_UPDATE, BARYCENTER}){
		Conf a = {2, 0.5, 1, mode}, b = {0.7, 0.5, 10, mode}, c = {10, 0.5, 0.2, mode}, e = {2, third, 1, mode};
		run<double, 1, 2, 1, 1>("double", 3, a, p1, q1, m2, 5); run<double, 1, 2, 1, 2>("double", 3 + d, a, p0, q1, m2, 5); run<double, 1, 2, 1, 3>("double", 3, a, p1, q1, m2, 5); run<double, 1, 2, 1, 3, 9>("double", 3 + d, b, p0, q1, m3, 6); run<double, 1, 2, 1, 4>("double", 3, c, pn, qn, m2, 6); run<double, 1, 2, 1, 5>("double", 3, c, p1, q1, m3, 6); run<double, 1, 2, 1, 7>("double", 3, c, p0, q1, m2, 6, {0, 2, 1});
		run<double, 2, 2, 1, 7>("double", 3, a, p2, q2, m2, 6); run<double, 2, 2, 1, 4>("double", 3, a, {{0, 5}, {1, -1}, {-2, 4}, {3, 2}}, q2, m2, 6);
		run<double, 1, 2, 2, 1>("double", 3, a, p0, q1, m2, 5); run<double, 1, 2, 2, 4>("double", 3, c, p0, q1, m2, 6); run<double, 1, 3, 2, 5>("double", 2, e, p1, q1, m2, 7); run<double, 1, 2, 3, 6, 50>("double", 2 + t, c, p0, q1, m2, 7); run<double, 2, 2, 1, 5>("double", 2, c, p2, q2, m3, 6, {0, 3}); run<int, 1, 2, 1, 5>("int", 3, {0.2, 0.5, 1, mode}, i1, qi, m2, 6); run<float, 3, 2, 2, 7>("float", 2, c, p3, q3, m2, 6, {0}); run<double, 1, 2, 1, 4>("double", 3, a, line({0, 1}), q1, edge, 5);
	}
#endif
#if PART == 1
	if(grow){
		for(int mode : {NONE, ORIGINAL, GHOST, PARTIAL, NO_UPDATE, BARYCENTER}){
			Conf a = {3, 0.5, 1, mode};
			for(int limit : {1, 2, 3}){ a.limit = limit; for(int m : {COBBLE_MANAGEMENT, OPTIMISTIC_COBBLE_MANAGEMENT, ROBUR_MANAGEMENT}){ a.management = m; if(m == OPTIMISTIC_COBBLE_MANAGEMENT && limit != 2) continue; run<double, 1, 2, 1, 9>("double", 3, a, p0, q1, m2, 6, {0, 3}); } }
			a.management = ROBUR_MANAGEMENT; a.limit = 2; a.size_type = DEPTH_SIZE; run<double, 1, 2, 2, 9>("double", 2, a, p0, q1, m2, 6, {0, 3}); a.limit = -1; a.size_type = NODE_SIZE; run<double, 1, 2, 2, 9>("double", 2, a, p0, q1, m2, 6, {0, 3, 2}); run<double, 1, 2, 2, 8>("double", 2, a, p1, q1, m2, 6, {0, 3});
			a.management = PAUSING_PHOENIX_MANAGEMENT; run<double, 1, 2, 1, 5>("double", 3, a, p0, q1, m2, 6, {0, 3}); a.management = PHOENIX_MANAGEMENT; run<double, 1, 2, 1, 5>("double", 3, a, p0, q1, m2, 6, {0, 3});
		}
		// splits instead of extensions
		for(int trigger : {1, 2, 3}) for(int fed : {0, 1, 2, 3}) for(int helper : {0, 2}){
			Conf a = {3, 0.5, 1, BARYCENTER}; a.trigger = trigger; a.fed = fed; a.helper = helper; a.trim = TRIM_COUNT;
			run<double, 1, 2, 1, 5>("double", 2 + t, a, p1, q1, mid, 6, {0, 3, 1, 4, 2, 5, 7}); if(fed != 1) run<double, 2, 2, 1, 7>("double", 2, a, p2, q2, m2, 7, {0, 3, 4, 7, 1, 9});
		}
		// leaves are split in two once memory has been full for long and some is free again
		std::vector<int> filled, filled2; for(int i = 0; i < 27; ++i){ filled.push_back((i * 3 + i / 4) % 8); filled2.push_back((i * 3 + i / 5) % 8); } filled.push_back(9); filled2.push_back(9);
		for(int trigger : {0, 3}) for(int fed : {0, 1, 2, 3}) for(int helper : {0, 1, 2}){
			Conf a = {6, 0.5, 1, BARYCENTER}; a.trigger = trigger; a.fed = fed; a.helper = helper; a.trim = fed % 2 ? TRIM_COUNT : TRIM_RANDOM; if(helper == 1) a.fc = 0.9;
			run<double, 1, 2, 1, 5>("double", 3, a, line({0, 1, 3, 4}), q1, mid, 6, filled); run<double, 2, 2, 1, 5>("double", 2, a, p2, q2, mid, 6, filled2);
		}
		// points further and further away, which split sub-trees of any shape when memory comes back
		for(int trigger : {1, 2, 3}) for(int fed : {0, 1, 2, 3}){
			Conf a = {4, 0.5, 1, BARYCENTER}; a.trigger = trigger; a.fed = fed; a.helper = fed % 3; a.trim = fed % 2 ? TRIM_COUNT : TRIM_FADING; a.grow = 0.3;
			longrun<double, 1, 2, 1, 7>("double", t ? 200 : 60, 1, 2, a, line({-1, 2}), q1, mid); longrun<double, 2, 2, 1, 11>("double", t ? 300 : 90, 0, 3, a, {{1, 2}, {-2, -1}}, q2, big); longrun<double, 2, 3, 2, 17>("double", t ? 300 : 90, 0, 2, a, {{1, 2}, {-2, 1}, {0.3, -3}}, q2, big);
		}
		Conf h = {3, 0.5, 1, BARYCENTER}; h.fep = 0.5; run<double, 1, 2, 1, 5>("double", 3, h, p1, q1, m2, 6); h.trigger = 1; run<double, 1, 2, 1, 5>("double", 3, h, p1, q1, mid, 6, {0, 3});
	}
#endif
#if PART == 2
	if(trim) for(int mode : {NONE, ORIGINAL, GHOST, PARTIAL, NO_UPDATE, BARYCENTER}) for(int tt : {TRIM_RANDOM, TRIM_FADING, TRIM_COUNT}){
		Conf a = {3, 0.5, 1, mode}; a.trim = tt;
		run<double, 1, 2, 1, 5>("double", 3, a, p0, q1, m2, 6, {0, 3, 2}); run<double, 1, 2, 1, 9>("double", 2, a, p1, q1, m2, 6, {0, 5, 2, 3, 1}); run<double, 1, 2, 2, 9>("double", 2, a, p0, q1, m2, 6, {0, 3, 1, 2});
		if(tt != TRIM_RANDOM && mode == ORIGINAL) for(double mt : {0.0, 0.2, 0.34}){ a.max_trim = mt; run<double, 1, 2, 1, 9>("double", 3, a, p0, q1, m2, 5, {0, 3, 1, 2, 0, 0}); }
	}
	if(sel("C49")){ law<1, 7>({0, 2, 4}, line({0, 1, 3}), 50); law<1, 9>({0, 2, 4, 6}, line({0, 1, 3, 7}), 50); law<1, 9>({6, 4, 2, 0}, line({0, 1, 3, 7}), 50); law<1, 9>({2, 6, 0, 4}, line({0, 1, 3, 7}), 50); law<1, 3>({0, 2}, line({0, 1}), 50); }
	int const len = t ? 450 : 130;
	if(trim) for(int tt : {TRIM_RANDOM, TRIM_FADING, TRIM_COUNT}) for(int mode : {ORIGINAL, BARYCENTER}) for(int trigger : {0, 1, 3}) for(int helper : {0, 1, 2}){
		if(mode == ORIGINAL && trigger + helper) continue; if(trigger == 3 && helper == 1) continue;
		Conf a = {5, 0.5, 1, mode}; a.trim = tt; a.trigger = trigger; a.helper = helper; a.fed = (trigger + helper + tt) % 4; if(helper == 1) a.fc = 0.9;
		longrun<double, 1, 2, 1, 7>("double", len, 0, 2, a, p0, q1, mid); longrun<double, 2, 2, 2, 13>("double", t ? len : 60, 0, t ? 2 : 1, a, p2, q2, big);
	}
	if(grow) for(int mode : {NONE, ORIGINAL, GHOST, PARTIAL, NO_UPDATE, BARYCENTER}){
		Conf a = {5, 0.5, 1, mode}; longrun<double, 1, 2, 1, 7>("double", t ? len : 70, 0, 2, a, p1, q1, big); longrun<double, 3, 3, 2, 21>("double", t ? len : 60, 0, t ? 2 : 1, a, p3, q3, big); longrun<int, 1, 2, 3, 11>("int", t ? len : 60, 0, t ? 2 : 1, {0.2, 0.5, 1, mode}, i1, qi, big);
	}
	if(grow) for(int mode : {NONE, ORIGINAL, GHOST, PARTIAL, NO_UPDATE, BARYCENTER}){ Conf a = {5, 0.5, 1, mode}; longrun<double, 1, 2, 1, 5>("double", 70000, 0, 1, a, line({0, 2}), q1, m2, 1000); longrun<double, 7, 5, 2, 13>("double", t ? 300 : 60, 0, 1, {5, 0.2, 1, mode}, p7, q7, big); longrun<double, 4, 4, 8, 50>("double", t ? 300 : 60, 0, 1, {5, 0.25, 1, mode}, p4, q4, big); if(t) longrun<float, 2, 2, 2, 11>("float", 70000, 0, 1, a, p2, q2, big, 1000); }
	if(trim) for(int tt : {TRIM_RANDOM, TRIM_FADING, TRIM_COUNT}){ Conf a = {5, 0.2, 1, tt == TRIM_FADING ? BARYCENTER : ORIGINAL}; a.trim = tt; longrun<double, 7, 5, 2, 13>("double", t ? 300 : 60, 0, 1, a, p7, q7, big); a.base = 0.25; longrun<double, 4, 4, 8, 50>("double", t ? 300 : 60, 0, 1, a, p4, q4, big); }
	if(plain){
		longrun<double, 7, 5, 2, 100>("double", t ? 300 : 60, 0, 1, {5, 0.2, 1, ORIGINAL}, p7, q7, big); longrun<double, 4, 4, 8, 200>("double", t ? 100 : 30, 0, 1, {5, 0.25, 1, ORIGINAL}, p4, q4, big);
		Conf a = {2, 0.5, 1, ORIGINAL}, b = {0.7, 0.5, 10, ORIGINAL}, c = {10, 0.5, 0.2, ORIGINAL}, e = {2, third, 1, ORIGINAL}, n = {2, 0.5, 0, ORIGINAL}, g = {1.5, 0.3, 2.5, ORIGINAL};
		for(Conf const& x : {a, b, c, n, g}) run<double, 1, 2, 1, 60>("double", 3 + d, x, p1, q1, m3, 6);
		run<double, 1, 2, 1, 60>("double", 3, a, pn, qn, edge, 6); run<double, 1, 3, 2, 60>("double", 2, e, p1, q1, m2, 7); run<double, 2, 2, 1, 60>("double", 3, c, p2, q2, m2, 5); run<double, 3, 2, 2, 60>("double", 2, c, p3, q3, m3, 6); run<int, 1, 2, 1, 60>("int", 3, {0.2, 0.5, 1, ORIGINAL}, i1, qi, m3, 6); run<float, 2, 2, 2, 60>("float", 2, a, p2, q2, m3, 6);
		longrun<double, 1, 2, 2, 100>("double", t ? 400 : 100, 0, 2, a, p1, q1, big); longrun<double, 2, 3, 1, 100>("double", t ? 400 : 100, 0, 2, {3, third, 1, ORIGINAL}, p2, q2, big); longrun<double, 1, 2, 1, 100>("double", t ? 70000 : 2000, 0, 2, a, line({0, 1}), q1, big, 200);
	}
#endif
#if PART == 3
	if(sel("C41")) for(int mode : {ORIGINAL, NONE}){
		Conf a = {2, 0.5, 1, mode}, b = {0.7, 0.5, 10, mode}, c = {10, 0.5, 0.2, mode}, e = {2, third, 1, mode};
		for(Conf const& x : {a, b, c}) run<double, 1, 2, 1, 30>("double", 4, x, p1, q1, m2, 6);
		run<double, 1, 2, 1, 3>("double", 4, a, p1, q1, m2, 5); run<double, 1, 2, 1, 5>("double", 4, c, p0, q1, m2, 6); run<double, 1, 3, 2, 9>("double", 3, e, p1, q1, m2, 6); run<double, 2, 2, 1, 30>("double", 3, c, p2, q2, m2, 6); run<double, 3, 2, 2, 30>("double", 2 + t, c, p3, q3, m3, 6, {0}); run<int, 1, 2, 1, 30>("int", 3, {0.2, 0.5, 1, mode}, i1, qi, m3, 6); run<double, 1, 2, 3, 8>("double", 3, c, p0, q1, m2, 6);
		run<double, 1, 2, 1, 9>("double", 3, c, pn, qn, m2, 6, {0, 7, 2, 1, 4});
		longrun<double, 7, 5, 2, 50>("double", t ? 300 : 60, 0, 1, {5, 0.2, 1, mode}, p7, q7, big); longrun<double, 4, 4, 8, 100>("double", t ? 300 : 60, 0, 1, {5, 0.25, 1, mode}, p4, q4, big); longrun<double, 1, 2, 1, 5>("double", 70000, 0, 1, c, line({0, 2}), q1, m2, 1000); longrun<double, 1, 2, 1, 30>("double", t ? 500 : 100, 0, 2, c, pn, qn, big); longrun<double, 2, 3, 2, 40>("double", t ? 500 : 100, 0, 2, {5, third, 1, mode}, p2, q2, big); longrun<double, 3, 2, 3, 20>("double", t ? 500 : 100, 0, 2, c, p3, q3, big);
	}
#endif
}
