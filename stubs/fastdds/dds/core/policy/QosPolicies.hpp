// Stand-in for Fast DDS' QoS policy identifiers.
#pragma once
#include <bitset>
#include <cstdint>
#include <string>
namespace eprosima {
namespace fastdds {
namespace dds {
enum QosPolicyId_t : uint32_t
{
    INVALID_QOS_POLICY_ID = 0,
    USERDATA_QOS_POLICY_ID,
    DURABILITY_QOS_POLICY_ID,
    PRESENTATION_QOS_POLICY_ID,
    DEADLINE_QOS_POLICY_ID,
    LATENCYBUDGET_QOS_POLICY_ID,
    OWNERSHIP_QOS_POLICY_ID,
    OWNERSHIPSTRENGTH_QOS_POLICY_ID,
    LIVELINESS_QOS_POLICY_ID,
    TIMEBASEDFILTER_QOS_POLICY_ID,
    PARTITION_QOS_POLICY_ID,
    RELIABILITY_QOS_POLICY_ID,
    DESTINATIONORDER_QOS_POLICY_ID,
    HISTORY_QOS_POLICY_ID,
    RESOURCELIMITS_QOS_POLICY_ID,
    ENTITYFACTORY_QOS_POLICY_ID,
    WRITERDATALIFECYCLE_QOS_POLICY_ID,
    READERDATALIFECYCLE_QOS_POLICY_ID,
    TOPICDATA_QOS_POLICY_ID,
    GROUPDATA_QOS_POLICY_ID,
    TRANSPORTPRIORITY_QOS_POLICY_ID,
    LIFESPAN_QOS_POLICY_ID,
    DURABILITYSERVICE_QOS_POLICY_ID,
    DATAREPRESENTATION_QOS_POLICY_ID,
    TYPECONSISTENCYENFORCEMENT_QOS_POLICY_ID,
    DISABLEPOSITIVEACKS_QOS_POLICY_ID,
    PARTICIPANTRESOURCELIMITS_QOS_POLICY_ID,
    PROPERTYPOLICY_QOS_POLICY_ID,
    PUBLISHMODE_QOS_POLICY_ID,
    READERRESOURCELIMITS_QOS_POLICY_ID,
    RTPSENDPOINT_QOS_POLICY_ID,
    RTPSRELIABLEREADER_QOS_POLICY_ID,
    RTPSRELIABLEWRITER_QOS_POLICY_ID,
    TRANSPORTCONFIG_QOS_POLICY_ID,
    TYPECONSISTENCY_QOS_POLICY_ID,
    WIREPROTOCOLCONFIG_QOS_POLICY_ID,
    WRITERRESOURCELIMITS_QOS_POLICY_ID,
    NEXT_QOS_POLICY_ID
};
using PolicyMask = std::bitset<NEXT_QOS_POLICY_ID>;
} // namespace dds
} // namespace fastdds
} // namespace eprosima
