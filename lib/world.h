// A slice with the settings of data/settings.json, for engine parts that read global state.
#pragma once
#include "Application.h"
#include "ExtruderTrain.h"
#include "Scene.h"
#include "Slice.h"
#include "communication/Communication.h"
#include "PrintInformation.h"
#include "sliceDataStorage.h"
#include "utils/ThreadPool.h"
#include <fstream>
#include <rapidjson/document.h>
#include <rapidjson/istreamwrapper.h>
#include <spdlog/spdlog.h>

namespace world
{
struct Recorder : cura::Communication
{
    std::string gcode;
    bool hasSlice() const override { return false; }
    void sendProgress(double) const override {}
    void sendLayerComplete(const cura::LayerIndex::value_type&, const cura::coord_t&, const cura::coord_t&) override {}
    void sendLineTo(const cura::PrintFeatureType&, const cura::Point3LL&, const cura::coord_t&, const cura::coord_t&, const cura::Velocity&) override {}
    void sendCurrentPosition(const cura::Point3LL&) override {}
    void setExtruderForSend(const cura::ExtruderTrain&) override {}
    void setLayerForSend(const cura::LayerIndex::value_type&) override {}
    void sendOptimizedLayerData() override {}
    void sendPrintInformation(const std::vector<cura::Duration>&, const cura::PrintInformation&) const override {}
    void sendGCodePart(const std::string& p) override { gcode += p; }
    void sendSliceUUID(const std::string&) const override {}
    void sendFinishedSlicing() const override {}
    void sliceNext() override {}
};

inline const std::vector<std::pair<std::string, std::string>>& defaults()
{
    static const std::vector<std::pair<std::string, std::string>> d = []
    {
        std::string f = __FILE__;
        f = f.substr(0, f.rfind('/')) + "/../data/settings.json";
        std::ifstream in(f);
        rapidjson::IStreamWrapper w(in);
        rapidjson::Document doc;
        doc.ParseStream(w);
        std::vector<std::pair<std::string, std::string>> r;
        if (! doc.IsObject())
        {
            fprintf(stderr, "cannot read %s\n", f.c_str());
            abort();
        }
        for (auto i = doc.MemberBegin(); i != doc.MemberEnd(); i++)
            r.push_back({ i->name.GetString(), i->value.GetString() });
        return r;
    }();
    return d;
}
/*! a new current slice with the given number of extruders and mesh groups; settings are all global */
inline cura::Scene& fresh(size_t extruders = 1, size_t groups = 1)
{
    cura::Application& a = cura::Application::getInstance();
    a.current_slice_ = std::make_shared<cura::Slice>(groups);
    cura::Scene& s = a.current_slice_->scene;
    for (auto& [k, v] : defaults())
        s.settings.add(k, v);
    s.settings.add("machine_extruder_count", std::to_string(extruders));
    s.extruders.reserve(extruders);
    for (size_t i = 0; i < extruders; i++)
    {
        s.extruders.emplace_back(i, &s.settings);
        s.extruders[i].settings_.add("extruder_nr", std::to_string(i));
    }
    s.current_mesh_group = s.mesh_groups.begin();
    if (! a.communication_)
        a.communication_ = std::make_shared<Recorder>();
    if (! a.thread_pool_)
        a.startThreadPool(1);
    return s;
}
} // namespace world
