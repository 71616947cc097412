struct Printer
{
    int tool = 0;
    double target[2] = { 0, 0 }, low[2] = { 0, 0 }; // what a nozzle has reached at least
    double bed = 0, bed_low = 0, vol = -1, vol_low = -1;
    std::map<int, double> fan; // 0..255 or 0..1
    double acc = -1, travel_acc = -1, jerk = -1;
    bool shared, smoothie;

    double& heater(int t)
    {
        return target[shared ? 0 : t];
    }
    double& reached(int t)
    {
        return low[shared ? 0 : t];
    }
    void run(const std::vector<Line>& lines, EGCodeFlavor f)
    {
        using F = EGCodeFlavor;
        for (const Line& l : lines)
        {
            const int t = l.has('T') ? (int)l.at('T') : tool;
            const auto both = [&]() { return l.has('X') && l.has('Y') && l.at('X') == l.at('Y') ? l.at('X') : -7; };
            if (l.cmd == "M104" || l.cmd == "M109")
            {
                if (! l.has('S') || t < 0 || t > 1)
                {
                    BAD("no temperature or nozzle in %s", l.raw.c_str());
                    return;
                }
                heater(t) = l.at('S');
                reached(t) = l.cmd == "M109" ? heater(t) : std::min(reached(t), heater(t));
                if (smoothie)
                    tool = t;
            }
            else if (l.cmd == "M116")
                for (int e = 0; e < 2; e++)
                    reached(e) = heater(e);
            else if (l.cmd == "M140" || l.cmd == "M190")
            {
                bed = l.at('S');
                bed_low = l.cmd == "M190" ? bed : std::min(bed, bed_low);
            }
            else if (l.cmd == "M141" || l.cmd == "M191")
            {
                vol = l.at('S');
                vol_low = l.cmd == "M191" ? vol : std::min(vol, vol_low);
            }
            else if (l.cmd == "M106" || l.cmd == "M107")
                fan[l.has('P') ? (int)l.at('P') : 0] = l.cmd == "M106" ? l.at('S') : 0;
            else if (l.cmd == "M126" || l.cmd == "M127")
                fan[0] = l.cmd == "M126";
            else if (l.cmd == "M201" && f == F::REPETIER)
                acc = both();
            else if (l.cmd == "M202" && f == F::REPETIER)
                travel_acc = both();
            else if (l.cmd == "M204")
                for (auto& [c, v] : l.w)
                {
                    if (c == 'P' || c == 'S')
                        acc = v;
                    if (c == 'T' || c == 'S')
                        travel_acc = v;
                }
            else if (l.cmd == "M205")
                jerk = both();
            else if (l.cmd == "M207" && f == F::REPETIER)
                jerk = l.at('X');
            else if (l.cmd == "M566" && f == F::REPRAP)
                jerk = both() / 60;
            else if (l.cmd == "M215" && f == F::CHEETAH)
                jerk = both() / 1000;
            else if (l.cmd == "T0" || l.cmd == "T1")
                tool = l.cmd[1] - '0';
            else if (l.cmd == "M135")
                tool = (int)l.at('T');
            else if (l.cmd == "M105" || l.cmd == "G92" || l.cmd == "G1" || l.cmd == "G0" || l.cmd == "M103" || l.cmd == "M82" || l.cmd == "M83" || l.cmd == "G10" || l.cmd == "G11")
                ;
            else
                BAD("the machine doesn't know %s", l.raw.c_str());
        }
    }
};
static const char* const COPS[] = { "heat200",    "wait200",   "heat180", "wait180",  "other-heat200", "other-wait200", "other-wait180", "wait200!", "heat200!", "heat0", "heat200.04", "switch", "bed60", "bed-wait60",
                                    "bed-wait80", "bed0",      "volume40", "volume-wait40", // 0..17
                                    "fan100",     "fan0",      "fan33.3", "fan33.33", "fan49.9",       "other-fan40",   "fans-switch",   "fans-extrude50", // 18..25
                                    "acc1000",    "acc1000.4", "acc3000", "travel-acc3000", "travel-acc1000", "jerk8", "jerk8.004", "jerk20" }; // 26..33
struct Requests
{
    const Conf& c;
    Fresh f;
    Gcode& g;
    Printer m;
    double temp[2] = { 0, 0 };
    double bed = 0, vol = -1;
    std::map<int, double> fan;
    double acc = -1, travel_acc = -1, jerk = -1;
    int tool;
    Requests(const Conf& c)
        : c(c)
        , g(*f.g)
    {
        g.preSetup(c.start);
        g.template_resolver_->prepareForResolving(c.start, {});
        g.setZ(300);
        m.shared = c.shared_heater;
        m.smoothie = c.active_tool;
        m.tool = tool = c.start;
        g.take();
    }
    void heat(int e, double v, bool wait, bool force)
    {
        g.writeTemperatureCommand(e, Temperature(v), wait, force);
        read();
        if (c.shared_heater && e != tool)
            return;
        if (c.shared_heater)
            temp[0] = temp[1] = v;
        else
            temp[e] = v;
        if (wait && m.reached(e) < v - 0.051)
            BAD("the machine may be at %g degrees where %g are to be waited for", m.reached(e), v);
    }
    double scaled(double v) const
    {
        if (c.flavor == EGCodeFlavor::MAKERBOT)
            return v >= 50;
        return c.scale_fans ? v / 100 : v * 2.55;
    }
    int fan_of(int e) const
    {
        return c.fans ? e : 0;
    }
    void op(int o)
    {
        const int other = 1 - tool;
        switch (o)
        {
        case 0: heat(tool, 200, false, false); break;
        case 1: heat(tool, 200, true, false); break;
        case 2: heat(tool, 180, false, false); break;
        case 3: heat(tool, 180, true, false); break;
        case 4: heat(other, 200, false, false); break;
        case 5: heat(other, 200, true, false); break;
        case 6: heat(other, 180, true, false); break;
        case 7: heat(tool, 200, true, true); break;
        case 8: heat(tool, 200, false, true); break;
        case 9: heat(tool, 0, false, false); break;
        case 10: heat(tool, 200.04, true, false); break;
        case 11:
            g.switchExtruder(other, Sequence::S(), 0);
            tool = other;
            read();
            break;
        case 12: case 13: case 14: case 15:
        {
            const bool wait = o == 13 || o == 14;
            const double v = o == 14 ? 80 : o == 15 ? 0 : 60;
            g.writeBedTemperatureCommand(Temperature(v), wait);
            read();
            if (c.flavor == EGCodeFlavor::ULTIGCODE)
                break;
            bed = v;
            if (wait && m.bed_low < v)
                BAD("the bed may be at %g degrees where %g are to be waited for", m.bed_low, v);
            break;
        }
        case 16: case 17:
            g.writeBuildVolumeTemperatureCommand(Temperature(40.0), o == 17);
            read();
            if (c.flavor == EGCodeFlavor::ULTIGCODE || c.flavor == EGCodeFlavor::GRIFFIN || c.flavor == EGCodeFlavor::CHEETAH)
                break;
            vol = 40;
            if (o == 17 && m.vol_low < 40)
                BAD("the build volume isn't waited for");
            break;
        case 18: case 19: case 20: case 21: case 22: case 23:
        {
            static const double v[] = { 100, 0, 33.3, 33.33, 49.9, 40 };
            if (o == 23)
                g.writeFanCommand(v[o - 18], other);
            else
                g.writeFanCommand(v[o - 18]);
            read();
            fan[fan_of(o == 23 ? other : tool)] = v[o - 18];
            break;
        }
        case 24:
            g.writePrepareFansForNozzleSwitch();
            read();
            if (c.cool)
                for (int n = 0; n <= c.fans; n++)
                    fan[n] = c.cool == 1 || n == fan_of(tool) ? 100 : 0;
            break;
        case 25:
            g.writePrepareFansForExtrusion(50);
            read();
            for (int n = 0; n <= c.fans; n++)
                if (n == fan_of(tool))
                    fan[n] = 50;
                else if (c.cool)
                    fan[n] = 0;
            break;
        case 26: case 27: case 28:
            acc = o == 26 ? 1000 : o == 27 ? 1000.4 : 3000;
            g.writePrintAcceleration(Acceleration(acc));
            read();
            if (c.flavor != EGCodeFlavor::REPETIER && c.flavor != EGCodeFlavor::REPRAP)
                travel_acc = acc;
            break;
        case 29: case 30:
            travel_acc = o == 29 ? 3000 : 1000;
            g.writeTravelAcceleration(Acceleration(travel_acc));
            read();
            if (c.flavor != EGCodeFlavor::REPETIER && c.flavor != EGCodeFlavor::REPRAP)
                acc = travel_acc;
            break;
        case 31: case 32: case 33:
            jerk = o == 31 ? 8 : o == 32 ? 8.004 : 20;
            g.writeJerk(Velocity(jerk));
            read();
            break;
        }
        if (m.tool != tool)
            BAD("the machine uses tool %d, not %d", m.tool, tool);
        for (int e = 0; e < 2; e++)
            if (std::abs(m.heater(e) - temp[e]) > 0.051)
                BAD("nozzle %d is to be at %g degrees but the machine was told %g", e, temp[e], m.heater(e));
        if (std::abs(m.bed - bed) > 0.051)
            BAD("the bed is to be at %g degrees but the machine was told %g", bed, m.bed);
        if (std::abs(m.vol - vol) > 0.051)
            BAD("the build volume is to be at %g degrees but the machine was told %g", vol, m.vol);
        for (int n = 0; n < 3; n++)
        {
            const auto w = fan.find(n), h = m.fan.find(c.flavor == EGCodeFlavor::MAKERBOT ? 0 : n);
            if (c.flavor == EGCodeFlavor::MAKERBOT && (c.fans || n))
                continue; // one fan
            if (w == fan.end() ? h != m.fan.end() && n : h == m.fan.end() || std::abs(h->second - scaled(w->second)) > (c.scale_fans ? 0.00501 : 0.0501))
                BAD("fan %d is to be at %g%% but the machine was told %g", n, w == fan.end() ? -1 : w->second, h == m.fan.end() ? -1 : h->second);
        }
        if (std::abs(m.acc - acc) > 0.51 || std::abs(m.travel_acc - travel_acc) > 0.51)
            BAD("accelerations are to be %g and %g but the machine was told %g and %g", acc, travel_acc, m.acc, m.travel_acc);
        if (std::abs(m.jerk - jerk) > 0.00501)
            BAD("jerk is to be %g but the machine was told %g", jerk, m.jerk);
    }
    void read()
    {
        g_text = g.take();
        m.run(parse(g_text), c.flavor);
    }
};
static void requests(const Conf& c, const std::vector<int>& ops, int first, int depth, int part, int rest)
{
    std::vector<size_t> s(depth, 0);
    uint64_t count = 0;
    s[0] = first;
    while (true)
    {
        if (count++ % part == (uint64_t)rest)
        {
            g_bad = false;
            g_ops.clear();
            Requests q(c);
            for (int i = 0; i < depth && ! g_bad; i++)
            {
                g_ops += std::string(" ") + COPS[ops[s[i]]];
                q.op(ops[s[i]]);
                vh::trans();
            }
            if (g_bad)
                return;
            uint64_t h = vh::hash(q.m.target, sizeof q.m.target);
            for (double d : { q.m.low[0], q.m.low[1], q.m.bed, q.m.bed_low, q.m.acc, q.m.travel_acc, q.m.jerk, q.m.fan.count(0) ? q.m.fan[0] : -1, q.m.fan.count(1) ? q.m.fan[1] : -1 })
                h = vh::mix(h, vh::hash(&d, sizeof d));
            vh::outcome(h);
            vh::state(vh::mix(h, vh::hash(s.data(), s.size() * sizeof(size_t))));
        }
        int i = depth - 1;
        while (i >= 1 && ++s[i] == ops.size())
            s[i--] = 0;
        if (i < 1)
            return;
    }
}
static void explore_commands()
{
    const bool th = vh::thorough();
    using F = EGCodeFlavor;
    std::vector<int> all, heat, rest;
    for (int o = 0; o < (int)std::size(COPS); o++)
    {
        all.push_back(o);
        if (o < 12)
            heat.push_back(o);
        if (o >= 18 || o == 11)
            rest.push_back(o);
    }
    const std::vector<int> bed = { 1, 12, 13, 14, 15, 16, 17 }, fans = { 11, 18, 19, 20, 21, 22, 23, 24, 25 }, motion = { 26, 27, 28, 29, 30, 31, 32, 33 };
    struct Group
    {
        const char* what;
        const std::vector<int>* ops;
        int depth, deep;
    };
    const Group groups[] = { { "everything", &all, 3, 4 }, { "nozzles", &heat, 4, 6 }, { "bed", &bed, 4, 6 }, { "fans", &fans, 4, 6 }, { "motion", &motion, 5, 6 } };
    for (F f : { F::MARLIN, F::GRIFFIN, F::ULTIGCODE, F::MARLIN_VOLUMATRIC, F::MAKERBOT, F::BFB, F::MACH3, F::REPRAP, F::REPETIER, F::CHEETAH })
        for (int v = 0; v < 8; v++)
        {
            Conf c{};
            c.flavor = f;
            c.shared_heater = v & 1;
            c.active_tool = v & 2;
            c.scale_fans = v & 1;
            c.fans = v >> 1 & 1;
            c.cool = v % 3;
            c.start = v >> 2;
            c.relative = v & 1;
            bool made = false;
            for (const Group& gr : groups)
                for (size_t a = 0; a < gr.ops->size(); a++)
                {
                    const int depth = th ? gr.deep : gr.depth;
                    if (! vh::begin("%s: %s, %s and up to %d more", name(c).c_str(), gr.what, COPS[(*gr.ops)[a]], depth - 1))
                        continue;
                    if (! made)
                        setup(c);
                    made = true;
                    for (int d = 1; d <= depth; d++)
                        requests(c, *gr.ops, a, d, d >= 6 ? 5 : 1, d >= 6 ? (a + v) % 5 : 0);
                }
        }
}
