"""C05: what a publisher's impression log says about spend, impressions and users."""
from collections import Counter
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData


def max_impressions__code(log: "list"):
    return PublisherData(log, "p").max_impressions


def max_impressions__spec(log):
    return len(log)


def max_spend__code(log: "list"):
    return PublisherData(log, "p").max_spend


def max_spend__spec(log):
    return max(s for _, s in log)


def max_reach__code(log: "list"):
    return PublisherData(log, "p").max_reach


def max_reach__spec(log):
    return len(set(u for u, _ in log))


def name_given__code(log: "list", name: "str"):
    p = PublisherData(log, name)
    return p.name if name else ""


def name_given__spec(log, name):
    return name if name else ""


def spend_of_no_impressions__code(log: "list", n: "zero"):
    return PublisherData(log, "p").spend_by_impressions(n)


def spend_of_no_impressions__spec(log, n):
    return 0


def spend_by_impressions__code(log: "list", n: "pos"):
    return PublisherData(log, "p").spend_by_impressions(n)


def spend_by_impressions__spec(log, n):
    return sorted(log, key=lambda x: x[1])[min(n, len(log)) - 1][1]


def impressions_by_spend__code(log: "list", spend: "float"):
    return PublisherData(log, "p").impressions_by_spend(spend)


def impressions_by_spend__spec(log, spend):
    return sum(1 for _, s in log if s <= spend)


def user_counts_by_impressions__code(log: "list", n: "nat"):
    return PublisherData(log, "p").user_counts_by_impressions(n)


def user_counts_by_impressions__spec(log, n):
    return Counter([u for u, _ in sorted(log, key=lambda x: x[1])[:n]])


def user_counts_by_spend__code(log: "list", spend: "float"):
    return PublisherData(log, "p").user_counts_by_spend(spend)


def user_counts_by_spend__spec(log, spend):
    return Counter([u for u, s in log if s <= spend])
