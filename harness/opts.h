// Table options for harnesses: the real CoreOptions with a file format that does nothing.
#pragma once
#include "paimon/core/core_options.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/reader/file_batch_reader.h"
#include "paimon/format/reader_builder.h"
#include "paimon/format/writer_builder.h"
#include "paimon/format/format_stats_extractor.h"
#include "vp.h"
namespace opts {
struct Format : paimon::FileFormat {
    std::string id = "none";
    const std::string& Identifier() const override { return id; }
    paimon::Result<std::unique_ptr<paimon::ReaderBuilder>> CreateReaderBuilder(int32_t) const override { return paimon::Status::NotImplemented(""); }
    paimon::Result<std::unique_ptr<paimon::WriterBuilder>> CreateWriterBuilder(::ArrowSchema*, int32_t) const override { return paimon::Status::NotImplemented(""); }
    paimon::Result<std::unique_ptr<paimon::FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema*) const override { return paimon::Status::NotImplemented(""); }
};
struct Factory : paimon::FileFormatFactory {
    const char* Identifier() const override { return "none"; }
    paimon::Result<std::unique_ptr<paimon::FileFormat>> Create(const std::map<std::string, std::string>&) const override { return std::unique_ptr<paimon::FileFormat>(new Format()); }
};
inline paimon::CoreOptions make(std::map<std::string, std::string> m) {
    paimon::FactoryCreator::GetInstance()->Register("none", new Factory());
    m["file.format"] = "none";
    m["manifest.format"] = "none";
    auto r = paimon::CoreOptions::FromMap(m);
    VP_CHECK(r.ok(), "the options are accepted");
    return std::move(r).value();
}
}  // namespace opts
